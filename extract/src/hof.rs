//! calls of crate functions that take a closure (`w.stack("x", |w| ..)`) become the body of the
//! function with the closure's body in place of its calls; `?` becomes a match with `return`, and the
//! returns are eliminated (nom::Elim).
use crate::lower::has_return;
use crate::nom::Elim;
use quote::format_ident;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct HofDef {
    pub params: Vec<Pat>,
    pub has_self: bool,
    pub body: Block,
    /// how an error value is converted by `?` (None: unchanged)
    pub conv: Option<String>,
    /// the same in the closure
    pub cconv: Option<String>,
}

pub struct HofPass<'b> {
    pub defs: &'b BTreeMap<String, HofDef>,
    pub uid: &'b mut usize,
    pub errors: &'b mut Vec<String>,
    /// the functions expanded so far: the names of the first expansion are h_FUNCTION_name
    pub used: BTreeSet<String>,
}

/// `E?` -> match
pub struct TryToMatch<'u> {
    pub option: bool,
    pub conv: Option<String>,
    pub uid: &'u mut usize,
}
impl<'u> VisitMut for TryToMatch<'u> {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            *self.uid += 1;
            let v = format_ident!("tv{}", *self.uid);
            let x = &t.expr;
            *e = match &self.conv {
                None if self.option => parse_quote!(match #x { Some(#v) => #v, None => return None }),
                None => parse_quote!(match #x { Ok(#v) => #v, Err(#v) => return Err(#v) }),
                Some(c) => {
                    let c: Expr = parse_str(c).unwrap();
                    parse_quote!(match #x { Ok(#v) => #v, Err(#v) => return Err(#c(#v)) })
                }
            };
        }
    }
}

/// names bound by patterns
fn bound(params: &[Pat], b: &Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            if i.ident != "None" {
                self.0.insert(i.ident.to_string());
            }
        }
    }
    let mut v = V(BTreeSet::new());
    for p in params {
        v.visit_pat(p);
    }
    v.visit_block(b);
    v.0
}
pub struct Subst<'a>(pub &'a BTreeMap<String, Expr>);
impl<'a> VisitMut for Subst<'a> {
    fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) {
        if let Some(Expr::Path(p)) = self.0.get(&i.ident.to_string()) {
            if let Some(x) = p.path.get_ident() {
                i.ident = x.clone();
            }
        }
        visit_mut::visit_pat_ident_mut(self, i);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(x) = self.0.get(&i.to_string()) {
                    *e = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// the calls of the closure parameter
struct Beta<'a> {
    name: String,
    closure: &'a Expr,
    body: Option<Expr>,
    uid: &'a mut usize,
    ok: bool,
}
impl<'a> VisitMut for Beta<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let c = match e {
            Expr::Call(c) => c,
            _ => return,
        };
        match &*c.func {
            Expr::Path(p) if p.path.is_ident(&self.name) => {}
            _ => return,
        }
        match (self.closure, &self.body) {
            (Expr::Closure(cl), Some(body)) => {
                if cl.inputs.len() != c.args.len() {
                    self.ok = false;
                    return;
                }
                let mut body = body.clone();
                let mut lets: Vec<Stmt> = vec![];
                let mut sub = BTreeMap::new();
                for (p, a) in cl.inputs.iter().zip(c.args.iter()) {
                    let p = match p {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    let a0 = match a {
                        Expr::Reference(r) if r.mutability.is_some() && matches!(&*r.expr, Expr::Path(_)) => (*r.expr).clone(),
                        a => a.clone(),
                    };
                    match (&p, &a0) {
                        (Pat::Ident(i), Expr::Path(_)) if i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none() => {
                            sub.insert(i.ident.to_string(), a0);
                        }
                        _ => {
                            *self.uid += 1;
                            lets.push(parse_quote!(let #p = #a;));
                        }
                    }
                }
                Subst(&sub).visit_expr_mut(&mut body);
                let st: Vec<Stmt> = match body {
                    Expr::Block(b) if b.label.is_none() => b.block.stmts,
                    e => vec![Stmt::Expr(e, None)],
                };
                *e = parse_quote!({ #(#lets)* #(#st)* });
            }
            (f @ Expr::Path(_), _) => {
                let a = &c.args;
                *e = parse_quote!(#f(#a));
            }
            _ => self.ok = false,
        }
    }
}

impl<'b> HofPass<'b> {
    fn elim(&mut self, b: &Expr, conv: &Option<String>) -> Option<Expr> {
        let mut b = b.clone();
        TryToMatch { option: false, conv: conv.clone(), uid: self.uid }.visit_expr_mut(&mut b);
        if !has_return(&b) {
            return Some(b);
        }
        Elim::new(self.uid).body(&b)
    }
    fn call(&mut self, name: &str, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
        let d = self.defs.get(name)?.clone();
        if d.has_self != recv.is_some() || d.params.len() != args.len() {
            return None;
        }
        let ci = args.iter().position(|a| matches!(a, Expr::Closure(_)))?;
        *self.uid += 1;
        let n = match self.used.insert(name.to_string()) {
            true => format!("_{}", name),
            false => self.uid.to_string(),
        };
        let mut body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: d.body.clone() });
        // hygiene: every name bound in the function
        let mut ren: BTreeMap<String, Expr> = BTreeMap::new();
        for b in bound(&d.params, &d.body) {
            let i = format_ident!("h{}_{}", n, b);
            ren.insert(b, parse_quote!(#i));
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut cname = String::new();
        for (i, (p, a)) in d.params.iter().zip(args.iter()).enumerate() {
            let id = match p {
                Pat::Ident(x) => x.ident.to_string(),
                _ => return None,
            };
            let to = ren.get(&id)?.clone();
            if i == ci {
                cname = match &to {
                    Expr::Path(p) => p.path.get_ident()?.to_string(),
                    _ => return None,
                };
            } else {
                let m = matches!(p, Pat::Ident(x) if x.mutability.is_some());
                lets.push(if m { parse_quote!(let mut #to = #a;) } else { parse_quote!(let #to = #a;) });
            }
        }
        if let Some(r) = recv {
            if !matches!(r, Expr::Path(_)) {
                return None;
            }
            ren.insert("self".into(), r.clone());
        }
        Subst(&ren).visit_expr_mut(&mut body);
        let clo = &args[ci];
        let cbody = match clo {
            Expr::Closure(c) => Some(self.elim(&c.body, &d.cconv)?),
            _ => None,
        };
        let mut be = Beta { name: cname, closure: clo, body: cbody, uid: self.uid, ok: true };
        be.visit_expr_mut(&mut body);
        if !be.ok {
            return None;
        }
        let body = self.elim(&body, &d.conv)?;
        let st: Vec<Stmt> = match body {
            Expr::Block(b) => b.block.stmts,
            e => vec![Stmt::Expr(e, None)],
        };
        Some(parse_quote!({ #(#lets)* #(#st)* }))
    }
}
/// what becomes of an error: an expression that leaves the function
type K<'k> = &'k dyn Fn(Expr) -> Expr;
struct Clo {
    name: String,
    closure: ExprClosure,
    conv: Option<String>,
}
fn convert(c: &Option<String>, x: Expr) -> Expr {
    match c {
        None => x,
        Some(c) => {
            let c: Expr = parse_str(c).unwrap();
            parse_quote!(#c(#x))
        }
    }
}
fn ctor<'e>(e: &'e Expr, n: &str) -> Option<&'e Expr> {
    match e {
        Expr::Call(c) if c.args.len() == 1 => match &*c.func {
            Expr::Path(p) if p.path.is_ident(n) => Some(&c.args[0]),
            _ => None,
        },
        _ => None,
    }
}
fn arm_ctor<'e>(p: &'e Pat, n: &str) -> Option<&'e Pat> {
    match p {
        Pat::TupleStruct(t) if t.elems.len() == 1 && t.path.is_ident(n) => Some(&t.elems[0]),
        _ => None,
    }
}
/// replaces `?` and `return Err(..)` in the statements of an inlined body
struct TryK<'a, 'b> {
    p: &'a mut HofPass<'b>,
    clos: &'a mut Vec<Clo>,
    conv: &'a Option<String>,
    k: K<'a>,
    ok: bool,
}
impl<'a, 'b> VisitMut for TryK<'a, 'b> {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Try(t) => {
                let (k, conv) = (self.k, self.conv);
                let k2 = |x: Expr| k(convert(conv, x));
                match self.p.tr_val(&t.expr, self.clos, self.conv, &k2) {
                    Some(x) => *e = x,
                    None => self.ok = false,
                }
            }
            Expr::Return(r) => match r.expr.as_ref().and_then(|x| ctor(x, "Err")) {
                Some(x) => *e = (self.k)(x.clone()),
                None => self.ok = false,
            },
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
impl<'b> HofPass<'b> {
    /// the last expression of a function, a call that takes a closure: errors leave the function
    pub fn tail(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            if self.is_hof(e) {
                let save = self.used.clone();
                let k = |x: Expr| -> Expr { parse_quote!(return Err(#x)) };
                match self.tr_val(e, &mut vec![], &None, &k) {
                    Some(x) => b.stmts[n - 1] = Stmt::Expr(parse_quote!(Ok(#x)), None),
                    None => self.used = save,
                }
            }
        }
    }
    fn is_hof(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => self.defs.contains_key(&m.method.to_string()) && m.args.iter().any(|a| matches!(a, Expr::Closure(_))),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.defs.get(&i.to_string()).map_or(false, |d| !d.has_self)) && c.args.iter().any(|a| matches!(a, Expr::Closure(_))),
                _ => false,
            },
            _ => false,
        }
    }
    fn tr_stmts(&mut self, st: &[Stmt], clos: &mut Vec<Clo>, conv: &Option<String>, k: K) -> Option<Vec<Stmt>> {
        let (last, init) = st.split_last()?;
        let mut out = vec![];
        for s in init {
            let mut s = s.clone();
            let mut t = TryK { p: self, clos, conv, k, ok: true };
            t.visit_stmt_mut(&mut s);
            if !t.ok {
                return None;
            }
            out.push(s);
        }
        match last {
            Stmt::Expr(e, None) => out.push(Stmt::Expr(self.tr_val(e, clos, conv, k)?, None)),
            _ => return None,
        }
        Some(out)
    }
    /// the value of `e` when it is Ok; an error goes to `k`
    fn tr_val(&mut self, e: &Expr, clos: &mut Vec<Clo>, conv: &Option<String>, k: K) -> Option<Expr> {
        if let Some(x) = ctor(e, "Ok") {
            let mut x = x.clone();
            let mut t = TryK { p: self, clos, conv, k, ok: true };
            t.visit_expr_mut(&mut x);
            return if t.ok { Some(x) } else { None };
        }
        if let Some(x) = ctor(e, "Err") {
            return Some(k(x.clone()));
        }
        match e {
            Expr::Paren(p) => return self.tr_val(&p.expr, clos, conv, k),
            Expr::Block(b) if b.label.is_none() => {
                let st = self.tr_stmts(&b.block.stmts, clos, conv, k)?;
                return Some(parse_quote!({ #(#st)* }));
            }
            Expr::If(i) => {
                let mut c = (*i.cond).clone();
                let mut t = TryK { p: self, clos, conv, k, ok: true };
                t.visit_expr_mut(&mut c);
                if !t.ok {
                    return None;
                }
                let a = self.tr_stmts(&i.then_branch.stmts, clos, conv, k)?;
                let b = self.tr_val(&i.else_branch.as_ref()?.1, clos, conv, k)?;
                return Some(parse_quote!(if #c { #(#a)* } else { #b }));
            }
            Expr::Match(m) => {
                if let (true, [x, y]) = (self.is_call(&m.expr, clos), &m.arms[..]) {
                    let (x, y) = if arm_ctor(&x.pat, "Ok").is_some() { (x, y) } else { (y, x) };
                    if let (Some(p), Some(q), Some(err)) = (arm_ctor(&x.pat, "Ok"), arm_ctor(&y.pat, "Err"), err_of(&y.body)) {
                        let (st, v) = err;
                        let k2 = |z: Expr| -> Expr {
                            let d = k(v.clone());
                            parse_quote!({ let #q = #z; #(#st)* #d })
                        };
                        let v = self.tr_val(&m.expr, clos, conv, &k2)?;
                        let a = self.tr_val(&x.body, clos, conv, k)?;
                        return Some(parse_quote!({ let #p = #v; #a }));
                    }
                }
                let mut s = (*m.expr).clone();
                let mut t = TryK { p: self, clos, conv, k, ok: true };
                t.visit_expr_mut(&mut s);
                if !t.ok {
                    return None;
                }
                let mut arms: Vec<Arm> = vec![];
                for a in &m.arms {
                    let mut a = a.clone();
                    a.body = Box::new(self.tr_val(&a.body, clos, conv, k)?);
                    a.comma = Some(Default::default());
                    arms.push(a);
                }
                return Some(parse_quote!(match #s { #(#arms)* }));
            }
            Expr::Return(_) => return None,
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(i) = p.path.get_ident().and_then(|i| clos.iter().position(|x| *i == x.name)) {
                        let (cl, cv) = (clos[i].closure.clone(), clos[i].conv.clone());
                        if cl.inputs.len() != c.args.len() {
                            return None;
                        }
                        let mut body = (*cl.body).clone();
                        let mut lets: Vec<Stmt> = vec![];
                        let mut sub = BTreeMap::new();
                        for (p, a) in cl.inputs.iter().zip(c.args.iter()) {
                            let p = match p {
                                Pat::Type(t) => (*t.pat).clone(),
                                p => p.clone(),
                            };
                            let a0 = match a {
                                Expr::Reference(r) if r.mutability.is_some() && matches!(&*r.expr, Expr::Path(_)) => (*r.expr).clone(),
                                a => a.clone(),
                            };
                            match (&p, &a0) {
                                (Pat::Ident(i), Expr::Path(_)) if i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none() => {
                                    sub.insert(i.ident.to_string(), a0);
                                }
                                _ => lets.push(parse_quote!(let #p = #a;)),
                            }
                        }
                        Subst(&sub).visit_expr_mut(&mut body);
                        let b = self.tr_val(&body, clos, &cv, k)?;
                        return Some(if lets.is_empty() { b } else { parse_quote!({ #(#lets)* #b }) });
                    }
                }
            }
            _ => {}
        }
        if self.is_hof(e) {
            return self.tr_hof(e, clos, k);
        }
        let mut x = e.clone();
        let mut t = TryK { p: self, clos, conv, k, ok: true };
        visit_mut::visit_expr_mut(&mut t, &mut x);
        if !t.ok {
            return None;
        }
        *self.uid += 1;
        let v = format_ident!("tv{}", *self.uid);
        let d = k(parse_quote!(#v));
        Some(parse_quote!(match #x { Ok(#v) => #v, Err(#v) => #d }))
    }
    fn is_call(&self, e: &Expr, clos: &[Clo]) -> bool {
        self.is_hof(e)
            || match e {
                Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.get_ident().map_or(false, |i| clos.iter().any(|x| *i == x.name))),
                _ => false,
            }
    }
    fn tr_hof(&mut self, e: &Expr, clos: &mut Vec<Clo>, k: K) -> Option<Expr> {
        let (name, recv, args): (String, Option<Expr>, Vec<Expr>) = match e {
            Expr::MethodCall(m) => (m.method.to_string(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => (p.path.get_ident()?.to_string(), None, c.args.iter().cloned().collect()),
                _ => return None,
            },
            _ => return None,
        };
        let d = self.defs.get(&name)?.clone();
        if d.has_self != recv.is_some() || d.params.len() != args.len() {
            return None;
        }
        *self.uid += 1;
        let n = match self.used.insert(name.clone()) {
            true => format!("_{}", name),
            false => self.uid.to_string(),
        };
        let mut body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: d.body.clone() });
        let mut ren: BTreeMap<String, Expr> = BTreeMap::new();
        for b in bound(&d.params, &d.body) {
            let i = format_ident!("h{}_{}", n, b);
            ren.insert(b, parse_quote!(#i));
        }
        let mut lets: Vec<Stmt> = vec![];
        let depth = clos.len();
        for (p, a) in d.params.iter().zip(args.iter()) {
            let id = match p {
                Pat::Ident(x) => x.ident.to_string(),
                _ => return None,
            };
            let to = ren.get(&id)?.clone();
            match a {
                Expr::Closure(c) => clos.push(Clo {
                    name: match &to {
                        Expr::Path(p) => p.path.get_ident()?.to_string(),
                        _ => return None,
                    },
                    closure: c.clone(),
                    conv: d.cconv.clone(),
                }),
                a => {
                    let m = matches!(p, Pat::Ident(x) if x.mutability.is_some());
                    lets.push(if m { parse_quote!(let mut #to = #a;) } else { parse_quote!(let #to = #a;) });
                }
            }
        }
        if let Some(r) = recv {
            if !matches!(r, Expr::Path(_)) {
                return None;
            }
            ren.insert("self".into(), r);
        }
        Subst(&ren).visit_expr_mut(&mut body);
        let r = self.tr_val(&body, clos, &d.conv, k);
        clos.truncate(depth);
        let r = r?;
        let st: Vec<Stmt> = match r {
            Expr::Block(b) => b.block.stmts,
            e => vec![Stmt::Expr(e, None)],
        };
        Some(parse_quote!({ #(#lets)* #(#st)* }))
    }
}
/// the statements before and the value in an expression that is Err(value)
fn err_of(e: &Expr) -> Option<(Vec<Stmt>, Expr)> {
    if let Some(x) = ctor(e, "Err") {
        return Some((vec![], x.clone()));
    }
    match e {
        Expr::Block(b) if b.label.is_none() => {
            let (l, i) = b.block.stmts.split_last()?;
            match l {
                Stmt::Expr(x, None) => {
                    let (s, v) = err_of(x)?;
                    let mut i = i.to_vec();
                    i.extend(s);
                    Some((i, v))
                }
                _ => None,
            }
        }
        _ => None,
    }
}
impl<'b> VisitMut for HofPass<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let r = match e {
            Expr::MethodCall(m) if self.defs.contains_key(&m.method.to_string()) => {
                let n = m.method.to_string();
                let x = self.call(&n, Some(&m.receiver), m.args.iter().cloned().collect());
                if x.is_none() && m.args.iter().any(|a| matches!(a, Expr::Closure(_))) {
                    self.errors.push(format!("call of {} not reducible", n));
                }
                x
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.defs.get(&i.to_string()).map_or(false, |d| !d.has_self)) => {
                    let n = p.path.get_ident().unwrap().to_string();
                    let x = self.call(&n, None, c.args.iter().cloned().collect());
                    if x.is_none() && c.args.iter().any(|a| matches!(a, Expr::Closure(_))) {
                        self.errors.push(format!("call of {} not reducible", n));
                    }
                    x
                }
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = r {
            *e = n;
        }
    }
}
