//! Normalisation passes: from the Rust of /repo to the subset the verifier accepts.
use crate::mac::{self, MacroDef};
use proc_macro2::{Ident, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default, Clone)]
pub struct FnOpts {
    /// method renames: old -> (new, drop turbofish)
    pub methods: BTreeMap<String, (String, bool)>,
    /// combinators to inline: name or name#k -> option|result|skip
    pub comb: BTreeMap<String, String>,
    pub strip: BTreeSet<String>,
    pub effects: BTreeSet<String>,
    pub effect_arg: String,
    /// `e?` -> option | result
    pub question: BTreeMap<String, String>,
    pub lifts: BTreeMap<String, Vec<String>>,
    pub lift_alias: BTreeMap<String, String>,
    pub deref: BTreeSet<String>,
    pub loops: BTreeMap<usize, String>,
    pub hints: BTreeMap<String, String>,
    pub closures: BTreeMap<usize, String>,
    /// Self:: / type paths that become free functions
    pub alias: BTreeMap<String, String>,
    pub into: bool,
    pub eq_rename: bool,
    /// expand nom parser expressions
    pub nom: bool,
    pub nom_bytes: bool,
    /// iterator chains ending in collect() become loops
    pub chain: bool,
    /// crate functions taking a closure, reduced at their calls
    pub hconsts: BTreeSet<String>,
    pub lconsts: BTreeSet<String>,
    pub hof: BTreeMap<String, crate::hof::HofDef>,
}

pub struct Lower<'a> {
    pub o: FnOpts,
    pub macros: &'a BTreeMap<String, MacroDef>,
    pub local_macros: BTreeMap<String, MacroDef>,
    pub raw: &'a mut Vec<String>,
    pub uid: &'a mut usize,
    pub notes: Vec<String>,
    pub nloops: usize,
    pub nclosures: usize,
    pub strlits: BTreeSet<String>,
    pub errors: Vec<String>,
}

fn parse_expr(ts: TokenStream) -> Expr {
    match parse2::<Expr>(ts.clone()) {
        Ok(e) => e,
        Err(er) => panic!("internal: cannot parse expr {ts}: {er}"),
    }
}
fn block_of(e: &Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block.clone(),
        e => parse2(quote!({ #e })).unwrap(),
    }
}
pub fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_macro(&mut self, m: &'a Macro) {
            let s = m.path.to_token_stream().to_string();
            if s.contains("try") {
                self.0 = true;
            }
        }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

fn path_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        Expr::Group(g) => path_ident(&g.expr),
        Expr::Paren(g) => path_ident(&g.expr),
        _ => None,
    }
}

// ---------------------------------------------------------------- macros
struct MacroPass<'b, 'a> {
    l: &'b mut Lower<'a>,
}
const LOGS: &[&str] = &["debug", "error", "info", "trace", "warn", "debug_assert"];

impl<'b, 'a> MacroPass<'b, 'a> {
    fn fresh(&mut self) -> usize {
        *self.l.uid += 1;
        *self.l.uid
    }
    fn format(&mut self, ts: TokenStream) -> Option<TokenStream> {
        use syn::parse::Parser;
        use syn::punctuated::Punctuated;
        let args = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(ts).ok()?;
        let mut it = args.into_iter();
        let f = match it.next()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let rest: Vec<Expr> = it.collect();
        let n = self.fresh();
        let v = format_ident!("fmt{}", n);
        let mut out = quote!(let mut #v = String::new(););
        let mut lit = String::new();
        let cs: Vec<char> = f.chars().collect();
        let mut i = 0;
        let mut k = 0;
        let flush = |lit: &mut String, out: &mut TokenStream| {
            if !lit.is_empty() {
                let l = lit.clone();
                out.extend(quote!(#v.push_str(#l);));
                lit.clear();
            }
        };
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => {
                    lit.push('{');
                    i += 2;
                }
                '}' => {
                    lit.push('}');
                    i += 2;
                }
                '{' => {
                    let end = (i..cs.len()).find(|&j| cs[j] == '}')?;
                    let inner: String = cs[i + 1..end].iter().collect();
                    flush(&mut lit, &mut out);
                    let (name, spec) = match inner.split_once(':') {
                        Some((a, b)) => (a.to_string(), b.to_string()),
                        None => (inner.clone(), String::new()),
                    };
                    let e: Expr = if name.is_empty() {
                        k += 1;
                        rest.get(k - 1)?.clone()
                    } else {
                        parse_str(&name).ok()?
                    };
                    if spec.is_empty() {
                        out.extend(quote!(vdisplay(&mut #v, &#e);));
                    } else if spec == "?" || spec == "#?" {
                        out.extend(quote!(vdebug(&mut #v, &#e);));
                    } else if spec.starts_with('0') {
                        let w: usize = spec[1..].parse().ok()?;
                        out.extend(quote!(vdisplay_pad0(&mut #v, &#e, #w);));
                    } else {
                        return None;
                    }
                    i = end + 1;
                }
                c => {
                    lit.push(c);
                    i += 1;
                }
            }
        }
        flush(&mut lit, &mut out);
        Some(quote!({ #out #v }))
    }
    /// None: drop the statement
    fn expand(&mut self, m: &Macro) -> Option<Option<Expr>> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if LOGS.contains(&name.as_str()) {
            self.l.notes.push(format!("dropped {}!", name));
            return Some(None);
        }
        let def = self
            .l
            .local_macros
            .get(&name)
            .or_else(|| self.l.macros.get(&name))
            .cloned();
        if let Some(d) = def {
            let u = self.fresh();
            let ts = mac::expand(&d, m.tokens.clone(), u)?;
            // a template may hold several statements
            let e = match parse2::<Expr>(ts.clone()) {
                Ok(e) => e,
                Err(_) => parse2::<Expr>(quote!({ #ts })).ok()?,
            };
            return Some(Some(e));
        }
        match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.l.notes.push(format!("{}! -> vpanic (requires false)", name));
                Some(Some(parse_expr(quote!(vpanic()))))
            }
            "matches" => {
                use syn::parse::{ParseStream, Parser};
                let p = |input: ParseStream| {
                    let e: Expr = input.parse()?;
                    let _: Token![,] = input.parse()?;
                    let pat = Pat::parse_multi_with_leading_vert(input)?;
                    let g = if input.peek(Token![if]) {
                        let _: Token![if] = input.parse()?;
                        let g: Expr = input.parse()?;
                        Some(g)
                    } else {
                        None
                    };
                    let _: Option<Token![,]> = input.parse()?;
                    Ok((e, pat, g))
                };
                let (e, pat, g) = p.parse2(m.tokens.clone()).ok()?;
                let g = g.map(|g| quote!(if #g));
                Some(Some(parse_expr(quote!(match #e { #pat #g => true, _ => false }))))
            }
            "ready" => {
                let e: Expr = parse2(m.tokens.clone()).ok()?;
                Some(Some(parse_expr(quote!(match #e {
                    Poll::Ready(ready_t) => ready_t,
                    Poll::Pending => return Poll::Pending,
                }))))
            }
            "format" => {
                let t = self.format(m.tokens.clone())?;
                Some(Some(parse_expr(t)))
            }
            "assert_eq" | "assert_ne" | "assert" => {
                use syn::parse::Parser;
                use syn::punctuated::Punctuated;
                let args = Punctuated::<Expr, Token![,]>::parse_terminated
                    .parse2(m.tokens.clone())
                    .ok()?;
                let a = &args[0];
                let t = match name.as_str() {
                    "assert" => quote!(if !(#a) { vpanic() }),
                    "assert_eq" => {
                        let b = &args[1];
                        quote!(if !(#a == #b) { vpanic() })
                    }
                    _ => {
                        let b = &args[1];
                        quote!(if #a == #b { vpanic() })
                    }
                };
                Some(Some(parse_expr(t)))
            }
            "concat" => {
                use syn::parse::Parser;
                use syn::punctuated::Punctuated;
                let args = Punctuated::<LitStr, Token![,]>::parse_terminated
                    .parse2(m.tokens.clone())
                    .ok()?;
                let s: String = args.iter().map(|l| l.value()).collect();
                Some(Some(parse_expr(quote!(#s))))
            }
            "vec" => {
                use syn::parse::{ParseStream, Parser};
                if m.tokens.is_empty() {
                    return Some(Some(parse_expr(quote!(Vec::new()))));
                }
                let p = |input: ParseStream| {
                    let a: Expr = input.parse()?;
                    let _: Token![;] = input.parse()?;
                    let n: Expr = input.parse()?;
                    Ok((a, n))
                };
                if let Ok((a, n)) = p.parse2(m.tokens.clone()) {
                    Some(Some(parse_expr(quote!(vvec_repeat(#a, #n)))))
                } else if let Ok(l) = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()) {
                    let l: Vec<Expr> = l.into_iter().collect();
                    Some(Some(parse_expr(quote!({ let mut vec_m = Vec::new(); #(vec_m.push(#l);)* vec_m }))))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
}
impl<'b, 'a> VisitMut for MacroPass<'b, 'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // local macro definitions first
        let mut stmts = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Item(Item::Macro(im)) => {
                    if let (Some(id), Some(d)) = (&im.ident, mac::parse_def(im.mac.tokens.clone())) {
                        self.l.local_macros.insert(id.to_string(), d);
                    }
                }
                Stmt::Item(_) => {}
                // pinning does not change the value
                Stmt::Macro(sm)
                    if sm.mac.path.segments.last().map_or(false, |s| s.ident == "pin_mut")
                        && parse2::<Ident>(sm.mac.tokens.clone()).is_ok() =>
                {
                    let x: Ident = parse2(sm.mac.tokens.clone()).unwrap();
                    stmts.push(parse_quote!(let mut #x = #x;));
                }
                Stmt::Macro(sm) => match self.expand(&sm.mac) {
                    Some(None) => {}
                    Some(Some(e)) => {
                        // statements of a macro that expands to a bare `let`
                        if let Expr::Block(eb) = &e {
                            if sm.semi_token.is_some()
                                && eb.block.stmts.iter().all(|s| matches!(s, Stmt::Local(_)))
                                && !eb.block.stmts.is_empty()
                            {
                                stmts.extend(eb.block.stmts.clone());
                                continue;
                            }
                        }
                        stmts.push(Stmt::Expr(e, sm.semi_token))
                    }
                    None => stmts.push(Stmt::Macro(sm)),
                },
                s => stmts.push(s),
            }
        }
        b.stmts = stmts;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        for _ in 0..8 {
            if let Expr::Macro(m) = e {
                if m.mac.path.is_ident("__vmark") || m.mac.path.is_ident("__vraw") {
                    return;
                }
                match self.expand(&m.mac) {
                    Some(Some(n)) => {
                        *e = n;
                        continue;
                    }
                    Some(None) => {
                        *e = parse_expr(quote!(()));
                    }
                    None => {
                        let s = m.mac.to_token_stream().to_string();
                        self.l.errors.push(format!("macro not expanded: {}", s));
                    }
                }
            }
            break;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- cleanup
struct Clean<'b> {
    notes: &'b mut Vec<String>,
}
impl<'b> VisitMut for Clean<'b> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(_)));
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        loop {
            match e {
                Expr::Group(g) => {
                    let inner = (*g.expr).clone();
                    let atomic = matches!(
                        inner,
                        Expr::Path(_)
                            | Expr::Lit(_)
                            | Expr::Call(_)
                            | Expr::MethodCall(_)
                            | Expr::Field(_)
                            | Expr::Paren(_)
                            | Expr::Block(_)
                            | Expr::Group(_)
                            | Expr::Macro(_)
                            | Expr::Try(_)
                            | Expr::Await(_)
                            | Expr::Index(_)
                    );
                    *e = if atomic { inner } else { parse_expr(quote!((#inner))) };
                }
                Expr::Await(a) => {
                    *e = (*a.base).clone();
                }
                Expr::Async(a) => {
                    let b = &a.block;
                    *e = parse_expr(quote!(#b));
                    self.notes.push("async block -> block".into());
                }
                Expr::Unsafe(_) => break,
                _ => break,
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_lit_mut(&mut self, _l: &mut Lit) {}
}

// ---------------------------------------------------------------- also / apply
struct AlsoPass<'b, 'a> {
    l: &'b mut Lower<'a>,
    k: usize,
}
/// replaces the closure parameter of `also` by the accumulator
struct AlsoSubst<'c> {
    from: &'c str,
    to: Ident,
}
impl<'c> VisitMut for AlsoSubst<'c> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let to = &self.to;
        match e {
            Expr::MethodCall(m) if path_ident(&m.receiver).as_deref() == Some(self.from) => {
                *m.receiver = parse_expr(quote!(#to));
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            Expr::Field(f) if path_ident(&f.base).as_deref() == Some(self.from) => {
                *f.base = parse_expr(quote!(#to));
                return;
            }
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. })
                if path_ident(expr).as_deref() == Some(self.from) =>
            {
                *e = parse_expr(quote!(#to));
                return;
            }
            Expr::Path(_) if path_ident(e).as_deref() == Some(self.from) => {
                *e = parse_expr(quote!((&mut #to)));
                return;
            }
            Expr::Closure(c) => {
                for p in &c.inputs {
                    if let Pat::Ident(i) = p {
                        if i.ident == self.from {
                            return;
                        }
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn closure_ident(c: &ExprClosure) -> Option<String> {
    if c.inputs.len() != 1 {
        return None;
    }
    let mut p = &c.inputs[0];
    if let Pat::Type(t) = p {
        p = &t.pat;
    }
    match p {
        Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(i.ident.to_string()),
        _ => None,
    }
}
impl<'b, 'a> VisitMut for AlsoPass<'b, 'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        loop {
            let m = match e {
                Expr::MethodCall(m) => m,
                _ => break,
            };
            if m.method == "also" {
                // collect the chain
                let mut cls: Vec<ExprClosure> = vec![];
                let mut cur: Expr = Expr::MethodCall(m.clone());
                let mut ok = true;
                loop {
                    match cur {
                        Expr::MethodCall(ref mc) if mc.method == "also" && mc.args.len() == 1 => {
                            match &mc.args[0] {
                                Expr::Closure(c) if closure_ident(c).is_some() && !has_return(&c.body) => {
                                    cls.push(c.clone());
                                    cur = (*mc.receiver).clone();
                                }
                                _ => {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                        _ => break,
                    }
                }
                if !ok {
                    self.l.errors.push("also with an unsupported closure".into());
                    break;
                }
                cls.reverse();
                let acc = format_ident!("acc{}", self.k);
                self.k += 1;
                let mut out = quote!(let mut #acc = #cur;);
                for c in cls {
                    let from = closure_ident(&c).unwrap();
                    let mut body = (*c.body).clone();
                    AlsoSubst { from: &from, to: acc.clone() }.visit_expr_mut(&mut body);
                    match body {
                        Expr::Block(b) => {
                            let b = b.block;
                            out.extend(quote!(#b));
                        }
                        b => out.extend(quote!(#b;)),
                    }
                }
                *e = parse_expr(quote!({ #out #acc }));
                continue;
            }
            if m.method == "apply" && m.args.len() == 1 {
                let r = &m.receiver;
                match &m.args[0] {
                    Expr::Closure(c) if c.inputs.len() == 1 => {
                        let p = &c.inputs[0];
                        let b = &c.body;
                        *e = match &**b {
                            Expr::Block(bb) => {
                                let st = &bb.block.stmts;
                                parse_expr(quote!({ let #p = #r; #(#st)* }))
                            }
                            b => parse_expr(quote!({ let #p = #r; #b })),
                        };
                        continue;
                    }
                    f @ Expr::Path(_) => {
                        *e = parse_expr(quote!(#f(#r)));
                        continue;
                    }
                    _ => {}
                }
            }
            break;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- iterator chains
/// `E.iter().map(..).filter(..).collect()` (with `chain`) and `E.iter().for_each(..)` become loops
struct ChainPass<'b, 'a> {
    l: &'b mut Lower<'a>,
    k: usize,
}
impl<'b, 'a> ChainPass<'b, 'a> {
    fn fresh(&mut self, s: &str) -> Ident {
        *self.l.uid += 1;
        format_ident!("{}{}", s, *self.l.uid)
    }
    /// (pattern, body) of a closure, or a call of a path
    fn app(&mut self, f: &Expr) -> Option<(Pat, Expr)> {
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    q => q.clone(),
                };
                let b = if has_return(&c.body) {
                    crate::nom::Elim::new(self.l.uid).body(&c.body)?
                } else {
                    (*c.body).clone()
                };
                Some((p, b))
            }
            Expr::Path(_) => {
                let v = self.fresh("chx");
                Some((parse_pat(quote!(#v)), parse_expr(quote!(#f(#v)))))
            }
            _ => None,
        }
    }
    fn steps(&mut self, val: TokenStream, ops: &[(String, Option<Expr>)], end: &dyn Fn(TokenStream) -> TokenStream) -> Option<TokenStream> {
        let (op, arg) = match ops.first() {
            None => return Some(end(val)),
            Some(x) => x,
        };
        let v = self.fresh("ch");
        Some(match op.as_str() {
            "copied" | "cloned" => {
                let rest = self.steps(quote!(#v), &ops[1..], end)?;
                quote!(let #v = *#val; #rest)
            }
            "map" => {
                let (p, b) = self.app(arg.as_ref()?)?;
                let rest = self.steps(quote!(#v), &ops[1..], end)?;
                quote!(let #v = { let #p = #val; #b }; #rest)
            }
            "filter_map" => {
                let (p, b) = self.app(arg.as_ref()?)?;
                let rest = self.steps(quote!(#v), &ops[1..], end)?;
                quote!(if let Some(#v) = { let #p = #val; #b } { #rest })
            }
            "filter" => {
                let (p, b) = self.app(arg.as_ref()?)?;
                let rest = self.steps(quote!(#val), &ops[1..], end)?;
                quote!(let #v = { let #p = &#val; #b }; if #v { #rest })
            }
            "for_each" => {
                let (p, b) = self.app(arg.as_ref()?)?;
                quote!({ let #p = #val; #b; })
            }
            _ => return None,
        })
    }
    /// `E.iter().any(..)`, `all`, `find_map`: a loop that stops
    fn search(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let mut ops = vec![];
        let mut cur = (*m.receiver).clone();
        let mut rooted = false;
        loop {
            let n = match &cur {
                Expr::MethodCall(x) => x.clone(),
                _ => break,
            };
            match n.method.to_string().as_str() {
                "map" | "filter_map" | "filter" if n.args.len() == 1 => ops.push((n.method.to_string(), Some(n.args[0].clone()))),
                "copied" | "cloned" => ops.push((n.method.to_string(), None)),
                "iter" | "rev" | "chars" | "bytes" | "into_iter" => {
                    rooted = true;
                    break;
                }
                _ => break,
            }
            cur = (*n.receiver).clone();
        }
        if !rooted {
            return None;
        }
        ops.reverse();
        let el = self.fresh("chel");
        let found = format_ident!("fnd{}", self.k);
        self.k += 1;
        let (p, b) = self.app(&m.args[0])?;
        let f2 = found.clone();
        let v = self.fresh("ch");
        let kind = m.method.to_string();
        let end = move |x: TokenStream| match kind.as_str() {
            "any" => quote!(let #v = { let #p = #x; #b }; if #v { #f2 = true; break; }),
            "all" => quote!(let #v = { let #p = #x; #b }; if !#v { #f2 = false; break; }),
            _ => quote!(#f2 = { let #p = #x; #b }; if #f2.is_some() { break; }),
        };
        let body = self.steps(quote!(#el), &ops, &end)?;
        let init = match m.method.to_string().as_str() {
            "any" => quote!(false),
            "all" => quote!(true),
            _ => quote!(None),
        };
        Some(parse_expr(quote!({ let mut #found = #init; for #el in #cur { #body } #found })))
    }
    fn chain(&mut self, e: &Expr) -> Option<Expr> {
        let mut ops = vec![];
        let mut cur = e.clone();
        let collect = match e {
            Expr::MethodCall(m) if m.method == "collect" && self.l.o.chain => {
                cur = (*m.receiver).clone();
                true
            }
            Expr::MethodCall(m) if m.method == "for_each" => false,
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "any" | "all" | "find_map") && m.args.len() == 1 && self.l.o.chain => {
                return self.search(m);
            }
            _ => return None,
        };
        let src = loop {
            match &cur {
                Expr::MethodCall(m) => match m.method.to_string().as_str() {
                    "map" | "filter_map" | "filter" | "for_each" if m.args.len() == 1 => {
                        ops.push((m.method.to_string(), Some(m.args[0].clone())));
                        cur = (*m.receiver).clone();
                    }
                    "copied" | "cloned" => {
                        ops.push((m.method.to_string(), None));
                        cur = (*m.receiver).clone();
                    }
                    _ => break cur,
                },
                _ => break cur,
            }
        };
        ops.reverse();
        let el = self.fresh("chel");
        if collect {
            let col = format_ident!("col{}", self.k);
            self.k += 1;
            let c2 = col.clone();
            let end = move |v: TokenStream| quote!(#c2.push(#v););
            // the pattern of a leading closure is the loop's pattern
            let b = self.steps(quote!(#el), &ops, &end)?;
            Some(parse_expr(quote!({ let mut #col = Vec::new(); for #el in #src { #b } #col })))
        } else {
            let b = self.steps(quote!(#el), &ops, &|v| v)?;
            Some(parse_expr(quote!({ for #el in #src { #b } })))
        }
    }
}
impl<'b, 'a> VisitMut for ChainPass<'b, 'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = self.chain(e) {
            *e = n;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- patterns
/// bindings of a pattern with references against the place `base` (a reference)
fn lower_ref_pat(p: &Pat, base: TokenStream, is_ref: bool, out: &mut TokenStream) -> bool {
    // is_ref: `base` has reference type
    match p {
        Pat::Wild(_) => true,
        Pat::Ident(i) if i.subpat.is_none() => {
            let id = &i.ident;
            let m = &i.mutability;
            if i.by_ref.is_some() {
                out.extend(quote!(let #id = & #base;));
            } else {
                out.extend(quote!(let #m #id = #base;));
            }
            true
        }
        Pat::Reference(r) => lower_ref_pat(&r.pat, quote!((*#base)), false, out),
        Pat::Paren(r) => lower_ref_pat(&r.pat, base, is_ref, out),
        Pat::Type(t) => lower_ref_pat(&t.pat, base, is_ref, out),
        Pat::Tuple(t) => {
            let mut ok = true;
            for (k, q) in t.elems.iter().enumerate() {
                let idx = Index::from(k);
                // default binding modes: a reference is looked through
                if is_ref {
                    ok &= match q {
                        Pat::Ident(i) if i.by_ref.is_none() => {
                            let id = &i.ident;
                            out.extend(quote!(let #id = &(*#base).#idx;));
                            true
                        }
                        Pat::Wild(_) => true,
                        _ => false,
                    };
                } else {
                    ok &= lower_ref_pat(q, quote!(#base.#idx), false, out);
                }
            }
            ok
        }
        _ => false,
    }
}
fn needs_lower(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            if i.by_ref.is_some() {
                self.0 = true;
            }
        }
        fn visit_pat_reference(&mut self, _: &'a PatReference) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    v.visit_pat(p);
    v.0
}

struct PatPass<'b, 'a> {
    l: &'b mut Lower<'a>,
}
fn binds_nothing(p: &Pat) -> bool {
    match p {
        Pat::Wild(_) | Pat::Lit(_) | Pat::Path(_) | Pat::Rest(_) => true,
        Pat::Ident(i) => i.subpat.is_none() && i.ident.to_string().starts_with(|c: char| c.is_ascii_uppercase()),
        Pat::TupleStruct(t) => t.elems.iter().all(binds_nothing),
        Pat::Tuple(t) => t.elems.iter().all(binds_nothing),
        _ => false,
    }
}
impl<'b, 'a> PatPass<'b, 'a> {
    fn fresh(&mut self, s: &str) -> Ident {
        *self.l.uid += 1;
        format_ident!("{}{}", s, *self.l.uid)
    }
    /// string-literal, slice and reference sub-patterns -> fresh binding + guard + body bindings
    fn guard_pat(&mut self, p: &mut Pat, guards: &mut Vec<TokenStream>, binds: &mut TokenStream) {
        match p {
            Pat::Lit(l) => {
                if let Lit::Str(s) = &l.lit {
                    let s = s.clone();
                    let v = self.fresh("pl");
                    guards.push(quote!(#v == #s));
                    *p = parse_pat(quote!(#v));
                }
            }
            Pat::Reference(r) if matches!(&*r.pat, Pat::Slice(_)) => {
                let mut inner = (*r.pat).clone();
                self.guard_pat(&mut inner, guards, binds);
                *p = inner;
            }
            Pat::Slice(s) => {
                let v = self.fresh("ps");
                let mut n = 0usize;
                let mut rest = false;
                for q in s.elems.iter() {
                    match q {
                        Pat::Rest(_) => rest = true,
                        Pat::Ident(i) if !rest => {
                            let id = &i.ident;
                            binds.extend(quote!(let #id = #v[#n];));
                            n += 1;
                        }
                        Pat::Wild(_) if !rest => n += 1,
                        _ => self.l.errors.push("slice pattern".into()),
                    }
                }
                if rest {
                    guards.push(quote!(#v.len() >= #n));
                } else {
                    guards.push(quote!(#v.len() == #n));
                }
                *p = parse_pat(quote!(#v));
            }
            Pat::Reference(r) => {
                // `&x` inside a pattern
                let v = self.fresh("pr");
                if !lower_ref_pat(&r.pat, quote!((*#v)), false, binds) {
                    self.l.errors.push("reference pattern".into());
                }
                *p = parse_pat(quote!(#v));
            }
            Pat::Tuple(t) => {
                for q in t.elems.iter_mut() {
                    self.guard_pat(q, guards, binds);
                }
            }
            Pat::TupleStruct(t) => {
                for q in t.elems.iter_mut() {
                    self.guard_pat(q, guards, binds);
                }
            }
            Pat::Struct(t) => {
                for q in t.fields.iter_mut() {
                    self.guard_pat(&mut q.pat, guards, binds);
                }
            }
            Pat::Paren(q) => self.guard_pat(&mut q.pat, guards, binds),
            Pat::Or(o) => {
                // only top-level `"a" | "b"`
                let mut alts = vec![];
                let mut all_str = true;
                for c in o.cases.iter() {
                    match c {
                        Pat::Lit(l) => {
                            if let Lit::Str(s) = &l.lit {
                                alts.push(s.clone());
                            } else {
                                all_str = false;
                            }
                        }
                        _ => all_str = false,
                    }
                }
                if all_str && !alts.is_empty() {
                    let v = self.fresh("pl");
                    guards.push(quote!((#(#v == #alts)||*)));
                    *p = parse_pat(quote!(#v));
                }
            }
            _ => {}
        }
    }
}
fn parse_pat(ts: TokenStream) -> Pat {
    use syn::parse::Parser;
    Pat::parse_multi.parse2(ts).unwrap()
}
/// the value of an expression that only returns
fn sole_return(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Return(r) => Some(match &r.expr {
            Some(x) => (**x).clone(),
            None => parse_expr(quote!(())),
        }),
        Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(x, _) => sole_return(x),
            _ => None,
        },
        _ => None,
    }
}
impl<'b, 'a> VisitMut for PatPass<'b, 'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `if let P = E` with an unsupported sub-pattern -> match
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &*i.cond {
                let mut p = (*l.pat).clone();
                let (mut g, mut b) = (vec![], TokenStream::new());
                self.guard_pat(&mut p, &mut g, &mut b);
                if !g.is_empty() || !b.is_empty() {
                    let s = &l.expr;
                    let st = &i.then_branch.stmts;
                    let els = match &i.else_branch {
                        Some((_, x)) => quote!(#x),
                        None => quote!({}),
                    };
                    let guard = if g.is_empty() {
                        quote!()
                    } else {
                        quote!(if #(#g)&&*)
                    };
                    *e = parse_expr(quote!(match #s { #p #guard => { #b #(#st)* } _ => #els }));
                } else {
                    let mut c = l.clone();
                    *c.pat = p;
                    *i.cond = Expr::Let(c);
                }
            }
        }
        if let Expr::Match(m) = e {
            let mut slice_top = false;
            let narms = m.arms.len();
            for (ai, arm) in m.arms.iter_mut().enumerate() {
                if matches!(arm.pat, Pat::Slice(_)) {
                    slice_top = true;
                }
                let (mut g, mut b) = (vec![], TokenStream::new());
                self.guard_pat(&mut arm.pat, &mut g, &mut b);
                if ai + 1 == narms && arm.guard.is_none() {
                    // the match is exhaustive, so the tests of its last arm cannot fail
                    g.clear();
                }
                if let Some((_, old)) = &arm.guard {
                    if b.is_empty() {
                        g.push(quote!((#old)));
                    } else {
                        g.push(quote!({ #b #old }));
                    }
                }
                if !g.is_empty() {
                    let ge: Expr = parse_expr(quote!(#(#g)&&*));
                    arm.guard = Some((Default::default(), Box::new(ge)));
                }
                if !b.is_empty() {
                    let body = &arm.body;
                    arm.body = Box::new(match &**body {
                        Expr::Block(bb) => {
                            let st = &bb.block.stmts;
                            parse_expr(quote!({ #b #(#st)* }))
                        }
                        x => parse_expr(quote!({ #b #x })),
                    });
                    arm.comma = Some(Default::default());
                }
            }
            if slice_top {
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*m.expr {
                    m.expr = expr.clone();
                }
            }
            // the verifier loses `&mut` parameters at a `return` next to a guard: leave the match first
            let rets: Vec<Option<Expr>> = m.arms.iter().map(|a| sole_return(&a.body)).collect();
            if m.arms.iter().any(|a| a.guard.is_some()) && rets.iter().any(|r| r.is_some()) && rets.iter().any(|r| r.is_none()) {
                // what an arm that binds nothing returns can be computed outside
                let outside = m.arms.iter().zip(&rets).all(|(a, r)| r.is_none() || binds_nothing(&a.pat));
                let mut outs = TokenStream::new();
                for (k, (a, r)) in m.arms.iter_mut().zip(rets).enumerate() {
                    let b = &a.body;
                    let k = k as u8;
                    a.body = Box::new(match r {
                        Some(x) if outside => {
                            let q = if outs.is_empty() { quote!(_) } else { quote!(#k) };
                            outs = quote!(Err(#q) => return #x, #outs);
                            parse_expr(quote!(Err(#k)))
                        }
                        Some(x) => parse_expr(quote!(Err(#x))),
                        None => parse_expr(quote!(Ok(#b))),
                    });
                    a.comma = Some(Default::default());
                }
                let v = self.fresh("gr");
                if outside {
                    *e = parse_expr(quote!(match #m { Ok(#v) => #v, #outs }));
                    return;
                }
                *e = parse_expr(quote!(match #m { Ok(#v) => #v, Err(#v) => return #v }));
            }
        }
        if let Expr::Closure(c) = e {
            let mut binds = TokenStream::new();
            for p in c.inputs.iter_mut() {
                let (inner, ty) = match &*p {
                    Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                    q => (q.clone(), None),
                };
                if needs_lower(&inner) {
                    let v = self.fresh("cp");
                    if !lower_ref_pat(&inner, quote!(#v), true, &mut binds) {
                        self.l.errors.push("closure pattern".into());
                    }
                    let np = parse_pat(quote!(#v));
                    *p = np.clone();
                    if let Some(t) = ty {
                        *p = Pat::Type(PatType {
                            attrs: vec![],
                            pat: Box::new(np),
                            colon_token: Default::default(),
                            ty: Box::new(t),
                        });
                    }
                }
            }
            if !binds.is_empty() {
                let body = &c.body;
                c.body = Box::new(match &**body {
                    Expr::Block(bb) => {
                        let st = &bb.block.stmts;
                        parse_expr(quote!({ #binds #(#st)* }))
                    }
                    x => parse_expr(quote!({ #binds #x })),
                });
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut stmts = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Local(l) if l.init.as_ref().map_or(false, |i| i.diverge.is_none()) => {
                    let (inner, _ty) = match &l.pat {
                        Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                        q => (q.clone(), None),
                    };
                    if needs_lower(&inner) {
                        let v = self.fresh("lp");
                        let init = &l.init.as_ref().unwrap().expr;
                        let mut binds = TokenStream::new();
                        if lower_ref_pat(&inner, quote!(#v), false, &mut binds) {
                            let nb: Block = parse2(quote!({ let #v = #init; #binds })).unwrap();
                            stmts.extend(nb.stmts);
                            continue;
                        }
                        self.l.errors.push("let pattern".into());
                    }
                    stmts.push(Stmt::Local(l));
                }
                s => stmts.push(s),
            }
        }
        b.stmts = stmts;
        visit_mut::visit_block_mut(self, b);
    }
}

// ---------------------------------------------------------------- combinators, ?, methods, paths
struct CombPass<'b, 'a> {
    l: &'b mut Lower<'a>,
    seen: BTreeMap<String, usize>,
    closure_depth: usize,
}
impl<'b, 'a> CombPass<'b, 'a> {
    fn kind(&mut self, name: &str) -> Option<String> {
        let k = self.seen.entry(name.to_string()).or_insert(0);
        let n = *k;
        *k += 1;
        self.l
            .o
            .comb
            .get(&format!("{}#{}", name, n))
            .or_else(|| self.l.o.comb.get(name))
            .cloned()
            // combinators only one of the two types has
            .or_else(|| match name {
                "ok_or" | "ok_or_else" | "is_some_and" => Some("option".to_string()),
                "map_err" | "is_ok_and" => Some("result".to_string()),
                _ => None,
            })
            .filter(|x| x != "skip")
    }
    /// `f` applied to `arg`, as (pattern, body); `?` and `return` in a closure end the closure
    fn app(&mut self, f: &Expr, fresh: &Ident, opt: bool) -> Option<(TokenStream, TokenStream)> {
        match f {
            Expr::Closure(c) => {
                let mut body = (*c.body).clone();
                if has_return(&body) {
                    crate::hof::TryToMatch { conv: None, option: opt, uid: self.l.uid }.visit_expr_mut(&mut body);
                    body = crate::nom::Elim::new(self.l.uid).body(&body)?;
                }
                let b = &body;
                match c.inputs.len() {
                    0 => Some((quote!(), quote!(#b))),
                    1 => {
                        let p = match &c.inputs[0] {
                            Pat::Type(t) => (*t.pat).clone(),
                            q => q.clone(),
                        };
                        Some((quote!(#p), quote!(#b)))
                    }
                    _ => None,
                }
            }
            Expr::Path(p) => Some((quote!(#fresh), quote!(#p(#fresh)))),
            _ => None,
        }
    }
    fn comb(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let kind = self.kind(&name)?;
        *self.l.uid += 1;
        let v = format_ident!("cv{}", *self.l.uid);
        let r = &m.receiver;
        let a0 = m.args.iter().next();
        let opt = kind == "option";
        let t = match (name.as_str(), m.args.len()) {
            ("map", 1) => {
                let (p, b) = self.app(a0?, &v, opt)?;
                if opt {
                    quote!(match #r { Some(#p) => Some(#b), None => None })
                } else {
                    quote!(match #r { Ok(#p) => Ok(#b), Err(#v) => Err(#v) })
                }
            }
            ("map_err", 1) => {
                let (p, b) = self.app(a0?, &v, opt)?;
                quote!(match #r { Ok(#v) => Ok(#v), Err(#p) => Err(#b) })
            }
            ("ok_or_else", 1) => {
                let (_, b) = self.app(a0?, &v, opt)?;
                quote!(match #r { Some(#v) => Ok(#v), None => Err(#b) })
            }
            ("ok_or", 1) => quote!(match #r { Some(#v) => Ok(#v), None => Err(#a0) }),
            ("unwrap_or_else", 1) => {
                let (p, b) = self.app(a0?, &v, opt)?;
                if opt {
                    quote!(match #r { Some(#v) => #v, None => #b })
                } else {
                    quote!(match #r { Ok(#v) => #v, Err(#p) => #b })
                }
            }
            ("unwrap_or", 1) => quote!(match #r { Some(#v) => #v, None => #a0 }),
            ("and_then", 1) => {
                let (p, b) = self.app(a0?, &v, opt)?;
                if opt {
                    quote!(match #r { Some(#p) => #b, None => None })
                } else {
                    quote!(match #r { Ok(#p) => #b, Err(#v) => Err(#v) })
                }
            }
            ("map_or", 2) => {
                let a1 = m.args.iter().nth(1)?;
                let (p, b) = self.app(a1, &v, opt)?;
                if opt {
                    quote!(match #r { Some(#p) => #b, None => #a0 })
                } else {
                    quote!(match #r { Ok(#p) => #b, Err(_) => #a0 })
                }
            }
            ("map_or_else", 2) => {
                let a1 = m.args.iter().nth(1)?;
                let (p, b) = self.app(a1, &v, opt)?;
                let (q, d) = self.app(a0?, &v, opt)?;
                if opt {
                    quote!(match #r { Some(#p) => #b, None => #d })
                } else {
                    quote!(match #r { Ok(#p) => #b, Err(#q) => #d })
                }
            }
            ("or_else", 1) => {
                let (p, b) = self.app(a0?, &v, opt)?;
                if opt {
                    quote!(match #r { Some(#v) => Some(#v), None => #b })
                } else {
                    quote!(match #r { Ok(#v) => Ok(#v), Err(#p) => #b })
                }
            }
            ("is_some_and", 1) => {
                let (p, b) = self.app(a0?, &v, opt)?;
                quote!(match #r { Some(#p) => #b, None => false })
            }
            ("is_ok_and", 1) => {
                let (p, b) = self.app(a0?, &v, opt)?;
                quote!(match #r { Ok(#p) => #b, Err(_) => false })
            }
            ("filter", 1) => {
                if let Expr::Closure(c) = a0? {
                    let p = match &c.inputs[0] {
                        Pat::Type(t) => (*t.pat).clone(),
                        q => q.clone(),
                    };
                    let b = &c.body;
                    quote!(match #r { Some(#v) => { let ok = { let #p = &#v; #b }; if ok { Some(#v) } else { None } } None => None })
                } else {
                    return None;
                }
            }
            ("then", 1) => {
                let (_, b) = self.app(a0?, &v, opt)?;
                quote!(if #r { Some(#b) } else { None })
            }
            ("is_some", 0) => quote!(match #r { Some(_) => true, None => false }),
            ("is_err", 0) => quote!(match #r { Ok(_) => false, Err(_) => true }),
            ("is_ok", 0) => quote!(match #r { Ok(_) => true, Err(_) => false }),
            _ => return None,
        };
        Some(parse_expr(t))
    }
}
impl<'b, 'a> VisitMut for CombPass<'b, 'a> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.closure_depth += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        self.closure_depth -= 1;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // effects
        if !self.l.o.effects.is_empty() {
            let arg: Option<Expr> = parse_str(&self.l.o.effect_arg).ok();
            match e {
                Expr::Call(c) => {
                    if let Expr::Path(p) = &*c.func {
                        let segs: Vec<String> =
                            p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        let last2 = segs[segs.len().saturating_sub(2)..].join("::");
                        let last = segs.last().unwrap().clone();
                        if self.l.o.effects.contains(&last2) || (segs.len() == 1 && self.l.o.effects.contains(&last)) {
                            c.args.push(arg.unwrap());
                        }
                    }
                }
                Expr::MethodCall(m) => {
                    if self.l.o.effects.contains(&format!(".{}", m.method)) {
                        m.args.push(arg.unwrap());
                    }
                }
                _ => {}
            }
        }
        // S.inspect_ok(|b| H.update(b..)) -> vinspect_ok_update(S, &mut H)
        let insp = match e {
            Expr::MethodCall(m) if m.method == "inspect_ok" && m.args.len() == 1 => match &m.args[0] {
                Expr::Closure(c) if c.inputs.len() == 1 => inspect_update(c).map(|h| {
                    let r = &m.receiver;
                    parse_expr(quote!(vinspect_ok_update(#r, &mut #h)))
                }),
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = insp {
            *e = n;
            return;
        }
        let ne = match e {
            Expr::MethodCall(m) => self.comb(m),
            _ => None,
        };
        if let Some(n) = ne {
            *e = n;
            return;
        }
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some((new, drop)) = self.l.o.methods.get(&name) {
                    m.method = Ident::new(new, m.method.span());
                    if *drop {
                        m.turbofish = None;
                    }
                }
            }
            Expr::Try(t) => {
                if self.closure_depth == 0 {
                    let k = {
                        let k = self.seen.entry("?".into()).or_insert(0);
                        let n = *k;
                        *k += 1;
                        n
                    };
                    let q = self
                        .l
                        .o
                        .question
                        .get(&k.to_string())
                        .or_else(|| self.l.o.question.get("*"))
                        .cloned();
                    let x = &t.expr;
                    *self.l.uid += 1;
                    let v = format_ident!("qv{}", *self.l.uid);
                    match q.as_deref() {
                        Some("option") => {
                            *e = parse_expr(quote!(match #x { Some(#v) => #v, None => return None }))
                        }
                        Some("result") => {
                            *e = parse_expr(
                                quote!(match #x { Ok(#v) => #v, Err(#v) => return Err(#v.vinto()) }),
                            )
                        }
                        Some("same") => {
                            *e = parse_expr(
                                quote!(match #x { Ok(#v) => #v, Err(#v) => return Err(#v) }),
                            )
                        }
                        Some(f) => {
                            // a conversion function
                            let f: Expr = parse_str(f).unwrap();
                            *e = parse_expr(
                                quote!(match #x { Ok(#v) => #v, Err(#v) => return Err(#f(#v)) }),
                            )
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}

/// the H of `|b| H.update(b)`, `|b| H.update(b.as_ref())` (also in a block)
fn inspect_update(c: &ExprClosure) -> Option<Expr> {
    let b = match &c.inputs[0] {
        Pat::Ident(i) => i.ident.clone(),
        Pat::Type(t) => match &*t.pat {
            Pat::Ident(i) => i.ident.clone(),
            _ => return None,
        },
        _ => return None,
    };
    let mut body = (*c.body).clone();
    while let Expr::Block(bl) = &body {
        if bl.block.stmts.len() != 1 {
            return None;
        }
        body = match &bl.block.stmts[0] {
            Stmt::Expr(e, _) => e.clone(),
            _ => return None,
        };
    }
    if let Expr::MethodCall(m) = &body {
        if m.method != "update" || m.args.len() != 1 {
            return None;
        }
        let mut a = m.args[0].clone();
        loop {
            a = match &a {
                Expr::MethodCall(x) if x.args.is_empty() && (x.method == "as_ref" || x.method == "vref" || x.method == "clone") => (*x.receiver).clone(),
                Expr::Reference(x) => (*x.expr).clone(),
                Expr::Paren(x) => (*x.expr).clone(),
                _ => break,
            };
        }
        if let Expr::Path(p) = &a {
            if p.path.is_ident(&b) {
                if let Expr::Path(_) = &*m.receiver {
                    return Some((*m.receiver).clone());
                }
            }
        }
    }
    None
}

struct PathPass<'b, 'a> {
    l: &'b mut Lower<'a>,
}
impl<'b, 'a> VisitMut for PathPass<'b, 'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        while p.segments.len() > 1 {
            let f = p.segments[0].ident.to_string();
            if self.l.o.strip.contains(&f) {
                p.leading_colon = None;
                p.segments = p.segments.iter().skip(1).cloned().collect();
            } else {
                break;
            }
        }
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if let Some(a) = self.l.o.alias.get(&s.join("::")) {
            let args = p.segments.last().unwrap().arguments.clone();
            let mut np: Path = parse_str(a).unwrap();
            np.segments.last_mut().unwrap().arguments = args;
            *p = np;
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if let Some(s) = p.path.segments.last() {
                if s.ident == "SmallVec" {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        if let Some(GenericArgument::Type(Type::Array(ar))) = a.args.first() {
                            let el = &ar.elem;
                            *t = parse2(quote!(Vec<#el>)).unwrap();
                        }
                    }
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Path(p) => {
                // <Vec<T>>::f and SmallVec::f -> Vec::f
                if let Some(q) = &p.qself {
                    if q.position == 0 {
                        if let Type::Path(tp) = &*q.ty {
                            let last = tp.path.segments.last().unwrap().ident.clone();
                            let seg = p.path.segments.clone();
                            *e = parse_expr(quote!(#last::#seg));
                        }
                    }
                } else if p.path.segments.len() > 1 && p.path.segments[0].ident == "SmallVec" {
                    p.path.segments[0].ident = format_ident!("Vec");
                }
            }
            Expr::Lit(l) => {
                if let Lit::ByteStr(b) = &l.lit {
                    let v = b.value();
                    let els = v.iter().map(|x| quote!(#x));
                    *e = parse_expr(quote!((&[#(#els),*])));
                } else if let Lit::Byte(b) = &l.lit {
                    let v = b.value();
                    let lit = proc_macro2::Literal::u8_suffixed(v);
                    *e = parse_expr(quote!(#lit));
                } else if let Lit::Str(s) = &l.lit {
                    self.l.strlits.insert(s.value());
                }
            }
            Expr::Unary(u) => {
                // *(&[..]) -> [..]
                if let (UnOp::Deref(_), Expr::Paren(p)) = (&u.op, &*u.expr) {
                    if let Expr::Reference(r) = &*p.expr {
                        if matches!(&*r.expr, Expr::Array(_)) && r.mutability.is_none() {
                            *e = (*r.expr).clone();
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                if m.method == "contains" && m.args.len() == 1 {
                    // (a..=b).contains(&x)
                    let recv = match &*m.receiver {
                        Expr::Paren(p) => &*p.expr,
                        r => r,
                    };
                    // [a, b].contains(&x)
                    if let (Expr::Array(a), Expr::Reference(x)) = (recv, &m.args[0]) {
                        let x = &x.expr;
                        let t = a.elems.iter().map(|q| quote!((#x == #q)));
                        *e = parse_expr(quote!((#(#t)||*)));
                        return;
                    }
                    if let (Expr::Range(r), Expr::Reference(x)) = (recv, &m.args[0]) {
                        if let (Some(a), Some(b)) = (&r.start, &r.end) {
                            let x = &x.expr;
                            *e = match r.limits {
                                RangeLimits::Closed(_) => parse_expr(quote!((#a <= #x && #x <= #b))),
                                RangeLimits::HalfOpen(_) => parse_expr(quote!((#a <= #x && #x < #b))),
                            };
                            return;
                        }
                    }
                }
                if self.l.o.into && m.method == "into" {
                    m.method = format_ident!("vinto");
                }
            }
            Expr::Verbatim(_) => {}
            _ => {}
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        // b'a' and b'a'..=b'z' in patterns
        fn fix(e: &mut Expr) {
            if let Expr::Lit(ExprLit { lit: Lit::Byte(b), .. }) = e {
                let lit = proc_macro2::Literal::u8_suffixed(b.value());
                *e = parse_expr(quote!(#lit));
            }
        }
        match p {
            Pat::Range(r) => {
                if let Some(e) = &mut r.start {
                    fix(e)
                }
                if let Some(e) = &mut r.end {
                    fix(e)
                }
            }
            Pat::Lit(l) => {
                if let Lit::Byte(b) = &l.lit {
                    let lit = proc_macro2::Literal::u8_suffixed(b.value());
                    *p = parse_pat(quote!(#lit));
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- lifted closures
struct LiftPass<'b, 'a> {
    l: &'b mut Lower<'a>,
}
impl<'b, 'a> VisitMut for LiftPass<'b, 'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| {
            if let Stmt::Local(l) = s {
                let p = match &l.pat {
                    Pat::Type(t) => &t.pat,
                    q => q,
                };
                if let (Pat::Ident(i), Some(init)) = (p, &l.init) {
                    if matches!(&*init.expr, Expr::Closure(_))
                        && self.l.o.lifts.contains_key(&i.ident.to_string())
                    {
                        return false;
                    }
                }
            }
            true
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Some(n) = path_ident(&c.func) {
                if let Some(caps) = self.l.o.lifts.get(&n) {
                    for cap in caps {
                        c.args.push(parse_str(cap).unwrap());
                    }
                    if let Some(a) = self.l.o.lift_alias.get(&n) {
                        *c.func = parse_str(a).unwrap();
                    }
                }
            }
        }
        if let Some(n) = path_ident(e) {
            if self.l.o.deref.contains(&n) {
                let id = format_ident!("{}", n);
                *e = parse_expr(quote!((*#id)));
            }
        }
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        // a method call on a captured variable derefs by itself
        if path_ident(&m.receiver).map_or(false, |n| self.l.o.deref.contains(&n)) {
            for a in m.args.iter_mut() {
                self.visit_expr_mut(a);
            }
            return;
        }
        visit_mut::visit_expr_method_call_mut(self, m);
    }
}

// ---------------------------------------------------------------- loops
struct LoopPass<'b, 'a> {
    letseen: BTreeSet<String>,
    l: &'b mut Lower<'a>,
    labels: Vec<(Option<String>, Option<Ident>)>,
    fnlevel: bool,
}
impl<'b, 'a> LoopPass<'b, 'a> {
    fn raw(&mut self, s: String) -> usize {
        self.l.raw.push(s);
        self.l.raw.len() - 1
    }
    fn hint(&mut self, place: &str) -> TokenStream {
        match self.l.o.hints.get(place).cloned() {
            Some(h) => {
                let n = self.raw(h);
                let n = proc_macro2::Literal::usize_unsuffixed(n);
                quote!(__vmark! { #n })
            }
            None => quote!(),
        }
    }
    fn inv(&mut self, k: usize) -> TokenStream {
        match self.l.o.loops.get(&k).cloned() {
            Some(h) => {
                let n = self.raw(h);
                let n = proc_macro2::Literal::usize_unsuffixed(n);
                quote!(__vloop! { #n })
            }
            None => quote!(),
        }
    }
    /// statements replacing a loop expression used as a statement
    fn lower_loop(&mut self, e: &Expr) -> Option<TokenStream> {
        match e {
            Expr::ForLoop(f) => {
                let k = self.l.nloops;
                self.l.nloops += 1;
                let it = format_ident!("it{}", k);
                let el = format_ident!("el{}", k);
                let src = &f.expr;
                let mut binds = TokenStream::new();
                let pat = &f.pat;
                if needs_lower(pat) {
                    if !lower_ref_pat(pat, quote!(#el), false, &mut binds) {
                        self.l.errors.push("for pattern".into());
                    }
                } else {
                    binds = quote!(let #pat = #el;);
                }
                let lab = &f.label;
                let before = self.hint(&format!("before_loop{}", k));
                let inv = self.inv(k);
                let hs = self.hint(&format!("loop{}_start", k));
                let hb = self.hint(&format!("loop{}_body", k));
                let hend = self.hint(&format!("loop{}_end", k));
                let hx = self.hint(&format!("loop{}_exit", k));
                let after = self.hint(&format!("after_loop{}", k));
                self.labels.push((f.label.as_ref().map(|l| l.name.ident.to_string()), None));
                let mut body = f.body.clone();
                self.visit_block_mut(&mut body);
                self.labels.pop();
                let st = &body.stmts;
                Some(quote!(
                    let mut #it = vinto_iter(#src);
                    #before
                    #lab loop { #inv #hs match #it.next() { None => { #hx break; } Some(#el) => { #binds #hb #(#st)* #hend } } }
                    #after
                ))
            }
            Expr::While(w) => {
                let k = self.l.nloops;
                self.l.nloops += 1;
                let lab = &w.label;
                let before = self.hint(&format!("before_loop{}", k));
                let inv = self.inv(k);
                let hs = self.hint(&format!("loop{}_start", k));
                let hend = self.hint(&format!("loop{}_end", k));
                let after = self.hint(&format!("after_loop{}", k));
                self.labels.push((w.label.as_ref().map(|l| l.name.ident.to_string()), None));
                let mut body = w.body.clone();
                self.visit_block_mut(&mut body);
                let mut cond = (*w.cond).clone();
                self.visit_expr_mut(&mut cond);
                self.labels.pop();
                let st = &body.stmts;
                if let Expr::Let(l) = &cond {
                    let p = &l.pat;
                    let s = &l.expr;
                    let hb = self.hint(&format!("loop{}_body", k));
                    let hx = self.hint(&format!("loop{}_exit", k));
                    Some(quote!(
                        #before
                        #lab loop { #inv #hs match #s { #p => { #hb #(#st)* #hend } _ => { #hx break; } } }
                        #after
                    ))
                } else {
                    Some(quote!(
                        #before
                        #lab while #cond { #inv #hs #(#st)* #hend }
                        #after
                    ))
                }
            }
            Expr::Loop(w) => {
                let k = self.l.nloops;
                self.l.nloops += 1;
                let before = self.hint(&format!("before_loop{}", k));
                let inv = self.inv(k);
                let hs = self.hint(&format!("loop{}_start", k));
                let hend = self.hint(&format!("loop{}_end", k));
                let after = self.hint(&format!("after_loop{}", k));
                let brk = format_ident!("brk{}", k);
                struct BV(bool, usize, Option<String>);
                impl<'x> Visit<'x> for BV {
                    fn visit_expr_break(&mut self, b: &'x ExprBreak) {
                        if b.expr.is_some()
                            && match &b.label {
                                Some(l) => Some(l.ident.to_string()) == self.2,
                                None => self.1 == 0,
                            }
                        {
                            self.0 = true;
                        }
                        visit::visit_expr_break(self, b);
                    }
                    fn visit_expr_loop(&mut self, l: &'x ExprLoop) {
                        self.1 += 1;
                        visit::visit_expr_loop(self, l);
                        self.1 -= 1;
                    }
                    fn visit_expr_closure(&mut self, _: &'x ExprClosure) {}
                }
                let mut bv = BV(false, 0, w.label.as_ref().map(|l| l.name.ident.to_string()));
                bv.visit_block(&w.body);
                let lab = &w.label;
                self.labels.push((
                    w.label.as_ref().map(|l| l.name.ident.to_string()),
                    if bv.0 { Some(brk.clone()) } else { None },
                ));
                let mut body = w.body.clone();
                self.visit_block_mut(&mut body);
                self.labels.pop();
                let st = &body.stmts;
                // a trailing unit expression needs a semicolon before a hint
                let sep = if hend.is_empty() { quote!() } else { quote!(;) };
                let lp = quote!(#before #lab loop { #inv #hs #(#st)* #sep #hend } #after);
                Some(if bv.0 {
                    quote!(let mut #brk = None; #lp let #brk = #brk.unwrap();)
                } else {
                    lp
                })
            }
            _ => None,
        }
    }
}
impl<'b, 'a> VisitMut for LoopPass<'b, 'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let top = std::mem::replace(&mut self.fnlevel, false);
        let mut out = TokenStream::new();
        if top {
            out.extend(self.hint("start"));
        }
        let n = b.stmts.len();
        let stmts: Vec<Stmt> = b.stmts.drain(..).collect();
        for (i, s) in stmts.into_iter().enumerate() {
            let is_tail = i + 1 == n;
            match s {
                Stmt::Expr(e, semi)
                    if matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) =>
                {
                    let k = self.l.nloops;
                    let is_brk = {
                        // value loop as the tail
                        matches!(e, Expr::Loop(_)) && is_tail && semi.is_none()
                    };
                    let t = self.lower_loop(&e).unwrap();
                    out.extend(t.clone());
                    if is_brk && t.to_string().starts_with("let mut brk") {
                        let brk = format_ident!("brk{}", k);
                        out.extend(quote!(#brk));
                    }
                }
                Stmt::Local(mut l) => {
                    if let Some(init) = &mut l.init {
                        if matches!(&*init.expr, Expr::Loop(_)) {
                            let k = self.l.nloops;
                            let t = self.lower_loop(&init.expr.clone()).unwrap();
                            let brk = format_ident!("brk{}", k);
                            let p = &l.pat;
                            out.extend(quote!(#t let #p = #brk;));
                            continue;
                        }
                    }
                    self.visit_local_mut(&mut l);
                    out.extend(quote!(#l));
                    let mut q = &l.pat;
                    while let Pat::Type(t) = q {
                        q = &t.pat;
                    }
                    if let Pat::Ident(id) = q {
                        let key = format!("after_let_{}", id.ident);
                        if self.l.o.hints.contains_key(&key) && self.letseen.insert(key.clone()) {
                            let h = self.hint(&key);
                            out.extend(h);
                        }
                    }
                }
                Stmt::Expr(mut e, semi) => {
                    self.visit_expr_mut(&mut e);
                    if top && is_tail && semi.is_none() && self.l.o.hints.contains_key("end") {
                        let h = self.hint("end");
                        out.extend(quote!(let ret_val = #e; #h ret_val));
                    } else {
                        out.extend(quote!(#e #semi));
                    }
                }
                s => out.extend(quote!(#s)),
            }
            if top {
                let h = self.hint(&format!("after_stmt{}", i));
                out.extend(h);
            }
        }
        if top && self.l.o.hints.contains_key("end") && !out.to_string().contains("ret_val") {
            let h = self.hint("end");
            out.extend(h);
        }
        *b = match parse2::<Block>(quote!({ #out })) {
            Ok(b) => b,
            Err(e) => panic!("internal: block does not parse: {e}: {out}"),
        };
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // loops in expression position
        if matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
            let k = self.l.nloops;
            let t = self.lower_loop(&e.clone()).unwrap();
            let brk = format_ident!("brk{}", k);
            *e = if t.to_string().starts_with("let mut brk") {
                parse_expr(quote!({ #t #brk }))
            } else {
                parse_expr(quote!({ #t }))
            };
            return;
        }
        if let Expr::Break(b) = e {
            if let Some(v) = &mut b.expr {
                self.visit_expr_mut(v);
                let target = match &b.label {
                    Some(l) => self
                        .labels
                        .iter()
                        .rev()
                        .find(|x| x.0.as_deref() == Some(&l.ident.to_string()[..])),
                    None => self.labels.last(),
                };
                if let Some((_, Some(brk))) = target {
                    let lab = &b.label;
                    let v = &b.expr;
                    *e = parse_expr(quote!({ #brk = Some(#v); break #lab; }));
                    return;
                }
                self.l.errors.push("break with value".into());
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let saved = std::mem::take(&mut self.labels);
        visit_mut::visit_expr_closure_mut(self, c);
        self.labels = saved;
    }
}

// ---------------------------------------------------------------- closures with contracts
struct ClosurePass<'b, 'a> {
    l: &'b mut Lower<'a>,
    k: usize,
}
impl<'b, 'a> VisitMut for ClosurePass<'b, 'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let spec = match e {
            Expr::Closure(_) => {
                let k = self.k;
                self.k += 1;
                self.l.o.closures.get(&k).cloned()
            }
            _ => None,
        };
        visit_mut::visit_expr_mut(self, e);
        if let (Some(s), Expr::Closure(c)) = (spec, &*e) {
            // header text: `|a: T| -> (r: U) ensures ..`; positional renaming of parameters
            let canon: Vec<String> = closure_params(&s);
            let mut binds = TokenStream::new();
            for (i, p) in c.inputs.iter().enumerate() {
                let p = match p {
                    Pat::Type(t) => (*t.pat).clone(),
                    q => q.clone(),
                };
                if let Some(cn) = canon.get(i) {
                    let cn = format_ident!("{}", cn);
                    if p.to_token_stream().to_string() != cn.to_string() {
                        binds.extend(quote!(let #p = #cn;));
                    }
                }
            }
            self.l.raw.push(s);
            let n = proc_macro2::Literal::usize_unsuffixed(self.l.raw.len() - 1);
            let b = block_of(&c.body);
            let st = &b.stmts;
            let nb: Expr = parse_quote!(__vclosure(#n, { #binds #(#st)* }));
            *e = nb;
        }
    }
}
fn closure_params(s: &str) -> Vec<String> {
    let a = s.find('|').unwrap_or(0);
    let b = s[a + 1..].find('|').map(|x| x + a + 1).unwrap_or(a);
    let inner = &s[a + 1..b];
    let mut depth = 0i32;
    let mut cur = String::new();
    let mut out = vec![];
    for c in inner.chars() {
        match c {
            '(' | '<' | '[' => depth += 1,
            ')' | '>' | ']' => depth -= 1,
            ',' if depth == 0 => {
                out.push(cur.clone());
                cur.clear();
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    out.push(cur);
    out.iter()
        .map(|x| x.split(':').next().unwrap().trim().to_string())
        .filter(|x| !x.is_empty())
        .collect()
}

impl<'a> Lower<'a> {
    /// types of an item (path aliases, SmallVec)
    pub fn run_item(&mut self, i: &mut Item) {
        if !matches!(i, Item::Const(_)) {
            PathPass { l: self }.visit_item_mut(i);
        }
    }
    pub fn run(&mut self, b: &mut Block) {
        // local macros defined later in the body are visible to nested uses
        MacroPass { l: self }.visit_block_mut(b);
        Clean { notes: &mut self.notes }.visit_block_mut(b);
        let mut again = BTreeMap::new();
        std::mem::swap(&mut again, &mut self.local_macros);
        self.local_macros = again;
        LiftPass { l: self }.visit_block_mut(b);
        if !self.o.hconsts.is_empty() || !self.o.lconsts.is_empty() {
            struct H<'x>(&'x BTreeSet<String>, &'x BTreeSet<String>);
            impl<'x> VisitMut for H<'x> {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    visit_mut::visit_expr_mut(self, e);
                    if let Expr::Path(p) = e {
                        let n = p.path.segments.last().unwrap().ident.to_string();
                        if p.qself.is_none() && self.0.contains(&n) {
                            let f = format_ident!("hdr_{}", n);
                            *e = parse_expr(quote!(#f()));
                        } else if p.qself.is_none() && self.1.contains(&n) {
                            let f = format_ident!("lst_{}", n);
                            *e = parse_expr(quote!(#f()));
                        }
                    }
                }
            }
            let h = self.o.hconsts.clone();
            let lc = self.o.lconsts.clone();
            H(&h, &lc).visit_block_mut(b);
        }
        if !self.o.hof.is_empty() {
            let mut defs = self.o.hof.clone();
            for d in defs.values_mut() {
                MacroPass { l: self }.visit_block_mut(&mut d.body);
                Clean { notes: &mut self.notes }.visit_block_mut(&mut d.body);
            }
            let mut hp = crate::hof::HofPass { defs: &defs, uid: self.uid, errors: &mut self.errors, used: BTreeSet::new() };
            hp.tail(b);
            hp.visit_block_mut(b);
            // the variables that leave a loop: brk0, brk1, ...
            struct Br(BTreeMap<String, Ident>);
            impl VisitMut for Br {
                fn visit_ident_mut(&mut self, i: &mut Ident) {
                    let s = i.to_string();
                    if s.len() > 4 && s.starts_with("brk_") && s[4..].bytes().all(|c| c.is_ascii_digit()) {
                        let n = self.0.len();
                        *i = self.0.entry(s).or_insert_with(|| format_ident!("brk{}", n)).clone();
                    }
                }
            }
            Br(BTreeMap::new()).visit_block_mut(b);
        }
        AlsoPass { l: self, k: 0 }.visit_block_mut(b);
        ChainPass { l: self, k: 0 }.visit_block_mut(b);
        if self.o.nom {
            crate::nom::NomPass { uid: self.uid, raw: self.raw, errors: &mut self.errors, env: vec![], bytes: self.o.nom_bytes }.visit_block_mut(b);
        }
        PatPass { l: self }.visit_block_mut(b);
        CombPass { l: self, seen: BTreeMap::new(), closure_depth: 0 }.visit_block_mut(b);
        PathPass { l: self }.visit_block_mut(b);
        {
            let mut cp = ClosurePass { l: self, k: 0 };
            cp.visit_block_mut(b);
            let k = cp.k;
            self.nclosures = k;
        }
        LoopPass { l: self, labels: vec![], fnlevel: true, letseen: BTreeSet::new() }.visit_block_mut(b);
    }
}
