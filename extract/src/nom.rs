//! nom parser expressions applied to an input become straight-line code over the parsers' definitions,
//! and closures with early returns become expressions.
use crate::lower::has_return;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

const COMBS: &[&str] = &[
    "tuple", "pair", "terminated", "preceded", "delimited", "separated_pair", "map", "map_res", "verify", "opt", "alt",
    "all_consuming", "recognize", "take", "tag", "take_till", "take_till1", "take_while", "take_while1", "complete",
];
const LEAVES: &[&str] = &["digit1", "digit0", "multispace0", "multispace1", "space0", "space1", "hex_u32", "rest", "line_ending", "crlf"];

/// `return` anywhere outside nested closures, or things that hide one
fn hidden_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_macro(&mut self, m: &'a Macro) {
            if m.path.to_token_stream().to_string().contains("try") {
                self.0 = true;
            }
        }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

fn has_loop(s: &[Stmt]) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {
            self.0 = true;
        }
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {
            self.0 = true;
        }
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    for x in s {
        syn::visit::Visit::visit_stmt(&mut v, x);
    }
    v.0
}
pub struct Elim<'u> {
    pub uid: &'u mut usize,
    budget: usize,
}
impl<'u> Elim<'u> {
    pub fn new(uid: &'u mut usize) -> Self {
        Elim { uid, budget: 200 }
    }
    fn fresh(&mut self) -> Ident {
        *self.uid += 1;
        format_ident!("er{}", *self.uid)
    }
    /// an expression without `return` equal to the value of the function body `stmts`
    pub fn body(&mut self, b: &Expr) -> Option<Expr> {
        if hidden_return(b) {
            return None;
        }
        let st = match b {
            Expr::Block(x) if x.label.is_none() => x.block.stmts.clone(),
            e => vec![Stmt::Expr(e.clone(), None)],
        };
        let t = self.stmts(&st)?;
        let e: Expr = parse2(quote!({ #t })).ok()?;
        if has_return(&e) {
            None
        } else {
            Some(e)
        }
    }
    /// hoists arguments that contain returns
    fn hoist(&mut self, e: &Expr, pre: &mut Vec<Stmt>) -> Expr {
        let mut bind = |s: &mut Self, a: &mut Expr| {
            let v = s.fresh();
            let inner = a.clone();
            pre.push(parse_quote!(let #v = #inner;));
            *a = parse_quote!(#v);
        };
        let mut e = e.clone();
        match &mut e {
            Expr::Call(c) if c.args.iter().any(has_return) => {
                for a in c.args.iter_mut() {
                    bind(self, a);
                }
            }
            Expr::MethodCall(c) if c.args.iter().any(has_return) => {
                for a in c.args.iter_mut() {
                    bind(self, a);
                }
            }
            Expr::MethodCall(c) if has_return(&c.receiver) => bind(self, &mut c.receiver),
            Expr::Match(m) if has_return(&m.expr) => bind(self, &mut m.expr),
            Expr::Binary(b) if has_return(&b.left) && !matches!(b.op, BinOp::And(_) | BinOp::Or(_)) => {
                bind(self, &mut b.left);
                if has_return(&b.right) {
                    bind(self, &mut b.right);
                }
            }
            _ => {}
        }
        e
    }
    fn stmts(&mut self, s: &[Stmt]) -> Option<TokenStream> {
        if self.budget == 0 {
            return None;
        }
        self.budget -= 1;
        let (h, rest) = match s.split_first() {
            None => return Some(quote!(())),
            Some(x) => x,
        };
        let with = |e: &Expr, tail: &[Stmt]| -> Vec<Stmt> {
            let mut v = match e {
                Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
                e => vec![Stmt::Expr(e.clone(), None)],
            };
            // a unit block followed by more statements
            if !tail.is_empty() {
                if let Some(Stmt::Expr(_, semi)) = v.last_mut() {
                    *semi = Some(Default::default());
                }
            }
            v.extend(tail.iter().cloned());
            v
        };
        match h {
            Stmt::Expr(e, semi) => {
                if !has_return(e) {
                    if rest.is_empty() {
                        return Some(quote!(#e #semi));
                    }
                    let r = self.stmts(rest)?;
                    return Some(quote!(#h #r));
                }
                let mut pre = vec![];
                let e2 = self.hoist(e, &mut pre);
                if !pre.is_empty() {
                    pre.push(Stmt::Expr(e2, *semi));
                    pre.extend(rest.iter().cloned());
                    return self.stmts(&pre);
                }
                // a conditional with a long rest: the rest is not copied into its branches
                if matches!(&e2, Expr::If(_)) && !rest.is_empty() && has_loop(rest) {
                    struct R;
                    impl VisitMut for R {
                        fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
                        fn visit_expr_mut(&mut self, e: &mut Expr) {
                            visit_mut::visit_expr_mut(self, e);
                            if let Expr::Return(r) = e {
                                *e = match &r.expr {
                                    Some(x) => parse_quote!(return Some(#x)),
                                    None => parse_quote!(return Some(())),
                                };
                            }
                        }
                    }
                    let mut h = e2.clone();
                    R.visit_expr_mut(&mut h);
                    let n: Expr = parse_quote!(None);
                    let t = self.stmts(&[Stmt::Expr(h, Some(Default::default())), Stmt::Expr(n, None)])?;
                    let w = self.fresh();
                    let r = self.stmts(rest)?;
                    return Some(quote!(match { #t } { Some(#w) => #w, None => { #r } }));
                }
                match &e2 {
                    Expr::Return(r) => {
                        let v: Expr = match &r.expr {
                            Some(x) => (**x).clone(),
                            None => parse_quote!(()),
                        };
                        let t = self.stmts(&[Stmt::Expr(v, None)])?;
                        Some(t)
                    }
                    Expr::Block(b) if b.label.is_none() => {
                        let v = with(&Expr::Block(b.clone()), rest);
                        self.stmts(&v)
                    }
                    Expr::If(i) => {
                        let c = &i.cond;
                        if has_return(c) {
                            return None;
                        }
                        let tb = &i.then_branch;
                        let t = self.stmts(&with(&parse_quote!(#tb), rest))?;
                        let f = match &i.else_branch {
                            Some((_, x)) => self.stmts(&with(x, rest))?,
                            None => self.stmts(rest)?,
                        };
                        Some(quote!(if #c { #t } else { #f }))
                    }
                    Expr::Match(m) => {
                        let s = &m.expr;
                        let mut arms = TokenStream::new();
                        for a in &m.arms {
                            let (p, b) = (&a.pat, &a.body);
                            let g = a.guard.as_ref().map(|(_, g)| quote!(if #g));
                            let t = self.stmts(&with(b, rest))?;
                            arms.extend(quote!(#p #g => { #t }));
                        }
                        Some(quote!(match #s { #arms }))
                    }
                    Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                        // a return inside a loop: remember the value and leave the loop
                        *self.uid += 1;
                        let v = format_ident!("brk_{}", *self.uid);
                        let mut lp = e2.clone();
                        let (body, fin): (&mut Block, TokenStream) = match &mut lp {
                            Expr::ForLoop(l) if l.label.is_none() => (&mut l.body, quote!()),
                            Expr::While(l) if l.label.is_none() => (&mut l.body, quote!()),
                            Expr::Loop(l) if l.label.is_none() => (&mut l.body, quote!()),
                            _ => return None,
                        };
                        let _ = fin;
                        struct R<'x>(&'x Ident, bool);
                        impl<'x> VisitMut for R<'x> {
                            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
                            fn visit_expr_mut(&mut self, e: &mut Expr) {
                                if matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) && has_return(e) {
                                    self.1 = false;
                                }
                                visit_mut::visit_expr_mut(self, e);
                                if let Expr::Return(r) = e {
                                    let v = self.0;
                                    *e = match &r.expr {
                                        Some(x) => parse_quote!({ #v = Some(#x); break }),
                                        None => parse_quote!({ #v = Some(()); break }),
                                    };
                                }
                            }
                        }
                        let mut rr = R(&v, true);
                        rr.visit_block_mut(body);
                        if !rr.1 {
                            return None;
                        }
                        let w = self.fresh();
                        let r = self.stmts(rest)?;
                        Some(quote!(let mut #v = None; #lp match #v { Some(#w) => #w, None => { #r } }))
                    }
                    _ => None,
                }
            }
            Stmt::Local(l) => {
                let init = match &l.init {
                    Some(i) if i.diverge.is_none() => &i.expr,
                    Some(_) => return None,
                    None => {
                        let r = self.stmts(rest)?;
                        return Some(quote!(#l #r));
                    }
                };
                if !has_return(init) {
                    let r = self.stmts(rest)?;
                    return Some(quote!(#l #r));
                }
                let p = &l.pat;
                let mut pre = vec![];
                let e2 = self.hoist(init, &mut pre);
                if !pre.is_empty() {
                    pre.push(parse_quote!(let #p = #e2;));
                    pre.extend(rest.iter().cloned());
                    return self.stmts(&pre);
                }
                match &e2 {
                    Expr::Return(_) => self.stmts(&[Stmt::Expr(e2.clone(), None)]),
                    Expr::Block(b) if b.label.is_none() => match b.block.stmts.split_last() {
                        Some((Stmt::Expr(x, None), before)) => {
                            let mut v = before.to_vec();
                            v.push(parse_quote!(let #p = #x;));
                            v.extend(rest.iter().cloned());
                            self.stmts(&v)
                        }
                        Some((last @ Stmt::Expr(..), _)) if matches!(last, Stmt::Expr(Expr::Return(_), _)) => self.stmts(&b.block.stmts),
                        _ => None,
                    },
                    Expr::Match(m) => {
                        let s = &m.expr;
                        let mut arms = TokenStream::new();
                        for a in &m.arms {
                            let (ap, b) = (&a.pat, &a.body);
                            let g = a.guard.as_ref().map(|(_, g)| quote!(if #g));
                            let mut v: Vec<Stmt> = vec![parse_quote!(let #p = #b;)];
                            v.extend(rest.iter().cloned());
                            let t = self.stmts(&v)?;
                            arms.extend(quote!(#ap #g => { #t }));
                        }
                        Some(quote!(match #s { #arms }))
                    }
                    Expr::If(i) if i.else_branch.is_some() => {
                        let c = &i.cond;
                        if has_return(c) {
                            return None;
                        }
                        let tb = &i.then_branch;
                        let eb = &i.else_branch.as_ref().unwrap().1;
                        let mut v: Vec<Stmt> = vec![parse_quote!(let #p = #tb;)];
                        v.extend(rest.iter().cloned());
                        let t = self.stmts(&v)?;
                        let mut v: Vec<Stmt> = vec![parse_quote!(let #p = #eb;)];
                        v.extend(rest.iter().cloned());
                        let f = self.stmts(&v)?;
                        Some(quote!(if #c { #t } else { #f }))
                    }
                    _ => None,
                }
            }
            s => {
                let r = self.stmts(rest)?;
                Some(quote!(#s #r))
            }
        }
    }
}

pub struct NomPass<'b> {
    pub uid: &'b mut usize,
    pub raw: &'b mut Vec<String>,
    pub errors: &'b mut Vec<String>,
    pub env: Vec<BTreeMap<String, Expr>>,
    /// the input is a byte slice
    pub bytes: bool,
}
impl<'b> NomPass<'b> {
    fn fresh(&mut self, s: &str) -> Ident {
        *self.uid += 1;
        format_ident!("{}{}", s, *self.uid)
    }
    fn pre(&self) -> &'static str {
        if self.bytes { "vnomb_" } else { "vnom_" }
    }
    fn comb_name(e: &Expr) -> Option<(String, Vec<Expr>)> {
        match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    if COMBS.contains(&n.as_str()) {
                        Some((n, c.args.iter().cloned().collect()))
                    } else {
                        None
                    }
                }
                _ => None,
            },
            Expr::Paren(p) => Self::comb_name(&p.expr),
            Expr::Group(p) => Self::comb_name(&p.expr),
            _ => None,
        }
    }
    fn lookup(&self, n: &str) -> Option<Expr> {
        self.env.iter().rev().find_map(|m| m.get(n).cloned())
    }
    /// `f(arg)` for a closure or a function name; the argument is a variable (or a borrow of one)
    fn apply(&mut self, f: &Expr, arg: TokenStream) -> TokenStream {
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let b = Elim::new(self.uid).body(&c.body);
                match b {
                    Some(b) => {
                        let p = &c.inputs[0];
                        quote!({ let #p = #arg; #b })
                    }
                    None => {
                        let v = self.fresh("nf");
                        quote!({ let #v = #f; #v(#arg) })
                    }
                }
            }
            f => quote!(#f(#arg)),
        }
    }
    /// a closure over one character as a contract-carrying closure
    fn pred(&mut self, f: &Expr) -> TokenStream {
        if let Expr::Closure(c) = f {
            if c.inputs.len() == 1 {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    q => q.clone(),
                };
                if let (Pat::Ident(id), Some(s)) = (&p, spec_text(&c.body)) {
                    let id = &id.ident;
                    self.raw.push(format!("|{}: {}| -> (vb: bool) ensures vb == ({})", id, if self.bytes { "u8" } else { "char" }, s));
                    let n = proc_macro2::Literal::usize_unsuffixed(self.raw.len() - 1);
                    let b = &c.body;
                    return quote!(__vclosure(#n, { #b }));
                }
            }
        }
        quote!(#f)
    }
    fn run(&mut self, p: &Expr, i: &Ident) -> Option<TokenStream> {
        if let Expr::Path(q) = p {
            if let Some(id) = q.path.get_ident() {
                if let Some(e) = self.lookup(&id.to_string()) {
                    return self.run(&e, i);
                }
                let n = id.to_string();
                if LEAVES.contains(&n.as_str()) {
                    let f = format_ident!("{}{}", self.pre(), n);
                    return Some(quote!(#f(#i)));
                }
            } else {
                let n = q.path.segments.last().unwrap().ident.to_string();
                if LEAVES.contains(&n.as_str()) {
                    let f = format_ident!("{}{}", self.pre(), n);
                    return Some(quote!(#f(#i)));
                }
            }
            return Some(quote!(#p(#i)));
        }
        let (name, args) = Self::comb_name(p)?;
        let seq = |s: &mut Self, ps: &[Expr], out: &dyn Fn(&[Ident]) -> TokenStream| -> Option<TokenStream> {
            let os: Vec<Ident> = ps.iter().map(|_| s.fresh("no")).collect();
            let rs: Vec<Ident> = ps.iter().map(|_| s.fresh("nr")).collect();
            let last = rs.last()?.clone();
            let val = out(&os);
            let mut acc = quote!(Ok((#last, #val)));
            for k in (0..ps.len()).rev() {
                let inp = if k == 0 { i.clone() } else { rs[k - 1].clone() };
                let call = s.run(&ps[k], &inp)?;
                let (o, r) = (&os[k], &rs[k]);
                let e = s.fresh("ne");
                acc = quote!(match #call { Err(#e) => Err(#e), Ok((#r, #o)) => #acc });
            }
            Some(acc)
        };
        let tup = |e: &Expr| -> Option<Vec<Expr>> {
            match e {
                Expr::Tuple(t) => Some(t.elems.iter().cloned().collect()),
                _ => None,
            }
        };
        let t = match (name.as_str(), args.len()) {
            ("tuple", 1) => seq(self, &tup(&args[0])?, &|o| quote!((#(#o),*)))?,
            ("pair", 2) => seq(self, &args, &|o| quote!((#(#o),*)))?,
            ("terminated", 2) => seq(self, &args, &|o| {
                let x = &o[0];
                quote!(#x)
            })?,
            ("preceded", 2) => seq(self, &args, &|o| {
                let x = &o[1];
                quote!(#x)
            })?,
            ("delimited", 3) => seq(self, &args, &|o| {
                let x = &o[1];
                quote!(#x)
            })?,
            ("separated_pair", 3) => seq(self, &args, &|o| {
                let (x, y) = (&o[0], &o[2]);
                quote!((#x, #y))
            })?,
            ("complete", 1) => self.run(&args[0], i)?,
            ("map", 2) => {
                let c = self.run(&args[0], i)?;
                let (r, o, e) = (self.fresh("nr"), self.fresh("no"), self.fresh("ne"));
                let b = self.apply(&args[1], quote!(#o));
                quote!(match #c { Err(#e) => Err(#e), Ok((#r, #o)) => Ok((#r, #b)) })
            }
            ("map_res", 2) => {
                let c = self.run(&args[0], i)?;
                let (r, o, e, x) = (self.fresh("nr"), self.fresh("no"), self.fresh("ne"), self.fresh("nx"));
                let b = self.apply(&args[1], quote!(#o));
                quote!(match #c { Err(#e) => Err(#e), Ok((#r, #o)) => match #b { Ok(#x) => Ok((#r, #x)), Err(_) => Err(vnom_error()) } })
            }
            ("verify", 2) => {
                let c = self.run(&args[0], i)?;
                let (r, o, e, x) = (self.fresh("nr"), self.fresh("no"), self.fresh("ne"), self.fresh("nx"));
                let b = self.apply(&args[1], quote!(&#o));
                quote!(match #c { Err(#e) => Err(#e), Ok((#r, #o)) => { let #x: bool = #b; if #x { Ok((#r, #o)) } else { Err(vnom_error()) } } })
            }
            ("opt", 1) => {
                let c = self.run(&args[0], i)?;
                let (r, o) = (self.fresh("nr"), self.fresh("no"));
                quote!(match #c { Err(_) => Ok((#i, None)), Ok((#r, #o)) => Ok((#r, Some(#o))) })
            }
            ("all_consuming", 1) => {
                let c = self.run(&args[0], i)?;
                let (r, o, e) = (self.fresh("nr"), self.fresh("no"), self.fresh("ne"));
                let at = format_ident!("{}at_end", self.pre());
                quote!(match #c { Err(#e) => Err(#e), Ok((#r, #o)) => if #at(#r) { Ok((#r, #o)) } else { Err(vnom_error()) } })
            }
            ("alt", 1) => {
                let ps = tup(&args[0])?;
                let mut acc: Option<TokenStream> = None;
                for p in ps.iter().rev() {
                    let c = self.run(p, i)?;
                    acc = Some(match acc {
                        None => c,
                        Some(a) => {
                            let x = self.fresh("nx");
                            quote!(match #c { Ok(#x) => Ok(#x), Err(_) => #a })
                        }
                    });
                }
                acc?
            }
            ("take", 1) | ("tag", 1) => {
                let f = format_ident!("{}{}", self.pre(), name);
                let a = &args[0];
                quote!(#f(#i, #a))
            }
            ("take_till", 1) | ("take_till1", 1) | ("take_while", 1) | ("take_while1", 1) => {
                let f = format_ident!("{}{}", self.pre(), name);
                let a = self.pred(&args[0]);
                quote!(#f(#i, #a))
            }
            _ => return None,
        };
        Some(t)
    }
    fn call(&mut self, c: &ExprCall) -> Option<Expr> {
        if c.args.len() != 1 {
            return None;
        }
        let is_parser = match &*c.func {
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.lookup(&i.to_string()).is_some() || LEAVES.contains(&i.to_string().as_str())),
            f => Self::comb_name(f).is_some(),
        };
        if !is_parser {
            if let Expr::Call(_) = &*c.func {
                self.errors.push(format!("parser not supported: {}", c.to_token_stream()));
            }
            return None;
        }
        let i = self.fresh("ni");
        let a = &c.args[0];
        match self.run(&c.func, &i) {
            Some(t) => parse2(quote!({ let #i = #a; #t })).ok(),
            None => {
                self.errors.push(format!("parser not supported: {}", c.to_token_stream()));
                None
            }
        }
    }
}
impl<'b> VisitMut for NomPass<'b> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.env.push(BTreeMap::new());
        let mut out = vec![];
        for mut s in b.stmts.drain(..).collect::<Vec<_>>() {
            if let Stmt::Local(l) = &s {
                let p = match &l.pat {
                    Pat::Type(t) => &*t.pat,
                    q => q,
                };
                if let (Pat::Ident(id), Some(init)) = (p, &l.init) {
                    if Self::comb_name(&init.expr).is_some() {
                        let mut e = (*init.expr).clone();
                        // names of parsers bound earlier are resolved now
                        self.resolve(&mut e);
                        self.env.last_mut().unwrap().insert(id.ident.to_string(), e);
                        continue;
                    }
                    self.env.last_mut().unwrap().remove(&id.ident.to_string());
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
        }
        b.stmts = out;
        self.env.pop();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            let c = c.clone();
            if let Some(n) = self.call(&c) {
                *e = n;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
impl<'b> NomPass<'b> {
    fn resolve(&mut self, e: &mut Expr) {
        struct R<'x, 'b>(&'x NomPass<'b>);
        impl<'x, 'b> VisitMut for R<'x, 'b> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Path(p) = e {
                    if let Some(id) = p.path.get_ident() {
                        if let Some(x) = self.0.lookup(&id.to_string()) {
                            *e = x;
                            return;
                        }
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
        }
        R(self).visit_expr_mut(e);
    }
}
/// the text of a side-effect free boolean expression in specifications
pub fn spec_text(e: &Expr) -> Option<String> {
    fn go(e: &Expr) -> Option<TokenStream> {
        Some(match e {
            Expr::Lit(_) | Expr::Path(_) => quote!(#e),
            Expr::Paren(p) => {
                let x = go(&p.expr)?;
                quote!((#x))
            }
            Expr::Group(p) => {
                let x = go(&p.expr)?;
                quote!((#x))
            }
            Expr::Unary(u) if !matches!(u.op, UnOp::Neg(_)) => {
                let x = go(&u.expr)?;
                let o = &u.op;
                quote!(#o #x)
            }
            Expr::Binary(b) => {
                let (l, r, o) = (go(&b.left)?, go(&b.right)?, &b.op);
                match o {
                    BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => quote!(#l #o #r),
                    _ => return None,
                }
            }
            Expr::MethodCall(m) if m.args.is_empty() => {
                let x = go(&m.receiver)?;
                let f = format_ident!("vsp_{}", m.method);
                quote!(#f(#x))
            }
            Expr::Match(m) => {
                let s = go(&m.expr)?;
                let mut arms = TokenStream::new();
                for a in &m.arms {
                    if a.guard.is_some() {
                        return None;
                    }
                    let (p, b) = (&a.pat, go(&a.body)?);
                    arms.extend(quote!(#p => #b,));
                }
                quote!(match #s { #arms })
            }
            Expr::Block(b) if b.label.is_none() => match &b.block.stmts[..] {
                [Stmt::Expr(x, None)] => go(x)?,
                _ => return None,
            },
            _ => return None,
        })
    }
    go(e).map(|t| t.to_string())
}
