//! extract REPO CONTRACT.vc OUT.rs : see DESIGN.md
mod hof;
mod lower;
mod mac;
mod nom;
mod print;

use lower::{FnOpts, Lower};
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path as FsPath;
use syn::visit_mut::VisitMut;
use syn::*;

fn die(kind: &str, msg: &str) -> ! {
    println!("{{\"error\":\"{}\",\"message\":{:?}}}", kind, msg);
    std::process::exit(3)
}

struct Src {
    file: File,
}
fn load(repo: &str, f: &str, cache: &mut BTreeMap<String, Src>) {
    if cache.contains_key(f) {
        return;
    }
    let p = FsPath::new(repo).join(f);
    let s = fs::read_to_string(&p).unwrap_or_else(|e| die("lost-anchor", &format!("{}: {}", f, e)));
    let file = parse_file(&s).unwrap_or_else(|e| die("parse", &format!("{}: {}", f, e)));
    cache.insert(f.to_string(), Src { file });
}
fn is_test(a: &[Attribute]) -> bool {
    a.iter().any(|a| {
        let t = a.to_token_stream().to_string();
        t.contains("cfg") && t.contains("test") && !t.contains("not")
    })
}
fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        _ => String::new(),
    }
}

#[derive(Clone)]
struct Found {
    params: Vec<Pat>,
    has_self: bool,
    mut_self: bool,
    body: Block,
    line: usize,
}

fn from_sig(sig: &Signature, block: &Block) -> Found {
    let mut params = vec![];
    let mut has_self = false;
    let mut mut_self = false;
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                has_self = true;
                mut_self = r.mutability.is_some() && r.reference.is_none();
            }
            FnArg::Typed(t) => params.push((*t.pat).clone()),
        }
    }
    Found { params, has_self, mut_self, body: block.clone(), line: sig.ident.span().start().line }
}

fn find_nested(b: &Block, name: &str) -> Option<Found> {
    struct V<'x> {
        name: &'x str,
        out: Option<Found>,
    }
    impl<'a, 'x> syn::visit::Visit<'a> for V<'x> {
        fn visit_item_fn(&mut self, f: &'a ItemFn) {
            if f.sig.ident == self.name && self.out.is_none() {
                self.out = Some(from_sig(&f.sig, &f.block));
            }
        }
    }
    use syn::visit::Visit;
    let mut v = V { name, out: None };
    v.visit_block(b);
    v.out
}
fn find_closure(b: &Block, name: &str) -> Option<Found> {
    struct V<'x> {
        name: &'x str,
        out: Option<Found>,
    }
    impl<'a, 'x> syn::visit::Visit<'a> for V<'x> {
        fn visit_local(&mut self, l: &'a Local) {
            let p = match &l.pat {
                Pat::Type(t) => &*t.pat,
                q => q,
            };
            if let (Pat::Ident(i), Some(init)) = (p, &l.init) {
                if i.ident == self.name {
                    if let Expr::Closure(c) = &*init.expr {
                        let body = match &*c.body {
                            Expr::Block(b) => b.block.clone(),
                            e => parse2(quote!({ #e })).unwrap(),
                        };
                        let params = c
                            .inputs
                            .iter()
                            .map(|p| match p {
                                Pat::Type(t) => (*t.pat).clone(),
                                q => q.clone(),
                            })
                            .collect();
                        self.out = Some(Found { params, has_self: false, mut_self: false, body, line: i.ident.span().start().line });
                        return;
                    }
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    use syn::visit::Visit;
    let mut v = V { name, out: None };
    v.visit_block(b);
    v.out
}
fn find_async(b: &Block) -> Option<Found> {
    struct V {
        out: Option<Found>,
    }
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_async(&mut self, a: &'a ExprAsync) {
            if self.out.is_none() {
                self.out = Some(Found {
                    params: vec![],
                    has_self: false,
                    mut_self: false,
                    body: a.block.clone(),
                    line: a.async_token.span.start().line,
                });
            }
        }
    }
    use syn::visit::Visit;
    let mut v = V { out: None };
    v.visit_block(b);
    v.out
}

/// stringify!(x) -> "x"
fn stringify(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match (&v[i], v.get(i + 1), v.get(i + 2)) {
            (TokenTree::Ident(id), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) if id == "stringify" && p.as_char() == '!' => {
                out.push(TokenTree::Literal(proc_macro2::Literal::string(&g.stream().to_string())));
                i += 3;
                continue;
            }
            (TokenTree::Group(g), _, _) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), stringify(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            (t, _, _) => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

fn find_in(items: &[Item], path: &str) -> Option<Found> {
    let (base, rest): (&str, Option<(char, &str)>) =
        match path.find(|c| c == '/' || c == '#' || c == '@') {
            Some(i) => (&path[..i], Some((path[i..].chars().next().unwrap(), &path[i + 1..]))),
            None => (path, None),
        };
    let f = match base.split_once("::") {
        None => items.iter().find_map(|i| match i {
            Item::Fn(f) if f.sig.ident == base && !is_test(&f.attrs) => Some(from_sig(&f.sig, &f.block)),
            _ => None,
        }),
        Some((ty, m)) => {
            let (ty, tr) = match ty.split_once('=') {
                Some((a, b)) => (a, Some(b)),
                None => (ty, None),
            };
            items.iter().find_map(|i| match i {
                Item::Impl(im) if !is_test(&im.attrs) && type_name(&im.self_ty) == ty => {
                    if let Some(tr) = tr {
                        match &im.trait_ {
                            Some((_, p, _)) if p.segments.last().unwrap().ident == tr => {}
                            _ => return None,
                        }
                    }
                    im.items.iter().find_map(|x| match x {
                        ImplItem::Fn(f) if f.sig.ident == m && !is_test(&f.attrs) => {
                            Some(from_sig(&f.sig, &f.block))
                        }
                        // functions generated by a macro of the file
                        ImplItem::Macro(mm) => {
                            let d = items.iter().find_map(|i| match i {
                                Item::Macro(d) if d.ident.is_some() && mm.mac.path.is_ident(d.ident.as_ref().unwrap()) => {
                                    mac::parse_def(d.mac.tokens.clone())
                                }
                                _ => None,
                            })?;
                            let ts = stringify(mac::expand(&d, mm.mac.tokens.clone(), 0)?);
                            let im: ItemImpl = parse2(quote!(impl X { #ts })).ok()?;
                            im.items.iter().find_map(|x| match x {
                                ImplItem::Fn(f) if f.sig.ident == m => Some(from_sig(&f.sig, &f.block)),
                                _ => None,
                            })
                        }
                        _ => None,
                    })
                }
                Item::Trait(t) if t.ident == ty => t.items.iter().find_map(|x| match x {
                    TraitItem::Fn(f) if f.sig.ident == m => {
                        f.default.as_ref().map(|b| from_sig(&f.sig, b))
                    }
                    _ => None,
                }),
                _ => None,
            })
        }
    }?;
    match rest {
        None => Some(f),
        Some(('/', r)) => {
            let (name, more) = match r.find(|c| c == '#' || c == '@') {
                Some(i) => (&r[..i], Some(&r[i..])),
                None => (r, None),
            };
            let g = find_nested(&f.body, name)?;
            match more {
                None => Some(g),
                Some(m) if m.starts_with('#') => find_closure(&g.body, &m[1..]),
                Some(_) => find_async(&g.body),
            }
        }
        Some(('#', r)) => find_closure(&f.body, r),
        Some(('@', r)) => {
            let g = find_async(&f.body)?;
            match r.split_once('#') {
                Some((_, c)) => find_closure(&g.body, c),
                None => Some(g),
            }
        }
        _ => None,
    }
}

fn find_item<'a>(items: &'a [Item], name: &str) -> Option<Item> {
    if let Some((f, c)) = name.split_once('/') {
        // const inside a function
        let b = find_in(items, f)?.body;
        return b.stmts.iter().find_map(|s| match s {
            Stmt::Item(i) => find_item(std::slice::from_ref(i), c),
            _ => None,
        });
    }
    items
        .iter()
        .find(|i| match i {
            Item::Const(c) => c.ident == name,
            Item::Enum(c) => c.ident == name,
            Item::Struct(c) => c.ident == name,
            _ => false,
        })
        .cloned()
        .or_else(|| {
            // items wrapped in a macro (pin_project! { struct .. })
            items.iter().find_map(|i| match i {
                Item::Macro(m) => {
                    let f: File = parse2(m.mac.tokens.clone()).ok()?;
                    find_item(&f.items, name)
                }
                _ => None,
            })
        })
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

#[derive(Default)]
struct FnSpec {
    file: String,
    path: String,
    sig: String,
    spec: String,
    attr: String,
    hide: String,
    nostrlit: bool,
    opts: FnOpts,
    name: String,
    /// contract only: verified in another unit
    assumed: bool,
}

fn sig_params(sig: &str) -> Vec<String> {
    // text between the parenthesis after the fn name (angle brackets skipped)
    let s = &sig[sig.find("fn ").map(|x| x + 3).unwrap_or(0)..];
    let cs: Vec<char> = s.chars().collect();
    let mut depth = 0i32;
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '<' => depth += 1,
            '>' if i > 0 && cs[i - 1] != '-' => depth -= 1,
            '(' if depth == 0 => break,
            _ => {}
        }
        i += 1;
    }
    let mut out = vec![];
    let mut cur = String::new();
    let mut d = 0i32;
    for (k, &c) in cs.iter().enumerate().skip(i + 1) {
        match c {
            '(' | '<' | '[' => d += 1,
            ')' if d == 0 => break,
            ')' | ']' => d -= 1,
            '>' if cs[k - 1] != '-' => d -= 1,
            ',' if d == 0 => {
                out.push(std::mem::take(&mut cur));
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    out.push(cur);
    out.iter()
        .map(|x| x.split(':').next().unwrap().trim().trim_start_matches("mut ").to_string())
        .filter(|x| !x.is_empty())
        .collect()
}

fn fn_name(sig: &str) -> String {
    let s = &sig[sig.find("fn ").map(|x| x + 3).unwrap_or(0)..];
    s.trim_start()
        .chars()
        .take_while(|c| c.is_alphanumeric() || *c == '_')
        .collect()
}

/// inlines calls of functions of the same file that have no contract
struct Inline<'a> {
    items: &'a [Item],
    self_ty: Option<String>,
    known: &'a BTreeSet<String>,
    notes: Vec<String>,
    depth: usize,
    uid: usize,
}
impl<'a> Inline<'a> {
    fn try_inline(&mut self, path: &str, recv_self: bool, args: Vec<Expr>) -> Option<Expr> {
        let f = find_in(self.items, path)?;
        if self.depth > 3 || f.has_self != recv_self || f.params.len() != args.len() {
            self.notes.push(format!("helper {} without contract", path));
            return None;
        }
        let b = &f.body;
        let e: Expr = parse2(quote!(#b)).ok()?;
        let mut elim = self.uid + 500 * (1 + self.depth);
        let e = if lower::has_return(&e) { nom::Elim::new(&mut elim).body(&e) } else { Some(e) };
        let b = match e {
            Some(Expr::Block(b)) => b.block,
            Some(e) => parse2(quote!({ #e })).ok()?,
            None => {
                self.notes.push(format!("helper {} without contract", path));
                return None;
            }
        };
        self.notes.push(format!("inlined helper {}", path));
        self.uid += 1;
        let mut pre = TokenStream::new();
        let mut post = TokenStream::new();
        for (i, (p, a)) in f.params.iter().zip(args.iter()).enumerate() {
            let t = quote::format_ident!("inl{}_{}", self.uid, i);
            pre.extend(quote!(let #t = #a;));
            post.extend(quote!(let #p = #t;));
        }
        let st = &b.stmts;
        parse2(quote!({ #pre #post #(#st)* })).ok()
    }
}
impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let r = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => {
                    let segs: Vec<String> =
                        p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().clone();
                    if self.known.contains(&last) {
                        None
                    } else if segs.len() == 1 {
                        self.try_inline(&last, false, c.args.iter().cloned().collect())
                    } else if segs.len() == 2
                        && (segs[0] == "Self" || Some(&segs[0]) == self.self_ty.as_ref())
                    {
                        match self.self_ty.clone() {
                            Some(t) => self.try_inline(
                                &format!("{}::{}", t, last),
                                false,
                                c.args.iter().cloned().collect(),
                            ),
                            None => None,
                        }
                    } else {
                        None
                    }
                }
                _ => None,
            },
            Expr::MethodCall(m) => {
                let is_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let n = m.method.to_string();
                match (&self.self_ty, is_self && !self.known.contains(&n)) {
                    (Some(t), true) => {
                        let p = format!("{}::{}", t, n);
                        self.try_inline(&p, true, m.args.iter().cloned().collect())
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(mut n) = r {
            self.depth += 1;
            self.visit_expr_mut(&mut n);
            self.depth -= 1;
            *e = n;
        }
    }
}

fn hconst(n: &str, lit: &str) -> String {
    format!("#[verifier::external_body]\npub fn hdr_{n}() -> (r: HName) ensures r@ == {lit}@ {{ unimplemented!() }}\n")
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
fn jlist(v: &[String]) -> String {
    let q: Vec<String> = v.iter().map(|x| format!("\"{}\"", esc(x))).collect();
    format!("[{}]", q.join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (repo, vc, out) = (&args[1], &args[2], &args[3]);
    let probe = args.iter().any(|a| a == "--probe");
    // loops see everything known before them (slower)
    let flat = args.iter().any(|a| a == "--flat");
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        println!("{{\"error\":\"unsupported\",\"message\":\"{}\"}}", esc(&m));
        std::process::exit(3);
    }));
    let dir = FsPath::new(vc).parent().unwrap();
    let mut text = fs::read_to_string(vc).unwrap_or_else(|e| die("vc", &e.to_string()));
    // textual inclusion of other contract files
    while let Some(p) = text.find("//@ use ") {
        let end = text[p..].find('\n').map(|x| x + p).unwrap_or(text.len());
        let f = text[p + 8..end].trim().to_string();
        let inc = fs::read_to_string(dir.join(&f)).unwrap_or_else(|e| die("vc", &format!("{}: {}", f, e)));
        text = format!("{}{}{}", &text[..p], inc, &text[end..]);
    }

    let mut cache = BTreeMap::new();
    let mut base = FnOpts::default();
    let mut rewrites: Vec<(Vec<TokenTree>, TokenStream)> = vec![];
    let mut macros: BTreeMap<String, mac::MacroDef> = BTreeMap::new();
    let mut override_macros: Vec<String> = vec![];
    let mut prelude_known: BTreeSet<String> = BTreeSet::new();

    enum Piece {
        Text(String),
        Fn(Box<FnSpec>),
        Item(String, String, String),
    }
    let mut pieces: Vec<Piece> = vec![];
    let mut cur_fn: Option<FnSpec> = None;
    // split into (directive, body)
    let mut secs: Vec<(String, String)> = vec![];
    fn split(text: &str) -> Vec<(String, String)> {
        let mut secs: Vec<(String, String)> = vec![];
        for line in text.lines() {
            if let Some(d) = line.trim_start().strip_prefix("//@") {
                secs.push((d.trim().to_string(), String::new()));
            } else if let Some(l) = secs.last_mut() {
                l.1.push_str(line);
                l.1.push('\n');
            }
        }
        secs
    }
    /// `import F`: the definitions of F, its functions by contract only (they are verified in F's own unit);
    /// a file is included or imported once
    fn expand(dir: &FsPath, secs: Vec<(String, String)>, imported: bool, seen: &mut BTreeSet<String>, out: &mut Vec<(String, String)>) {
        let mut infn = false;
        for (d, body) in secs {
            let (kw, rest) = match d.split_once(char::is_whitespace) {
                Some((a, b)) => (a, b.trim()),
                None => (d.as_str(), ""),
            };
            match kw {
                "import" => {
                    infn = false;
                    if seen.insert(rest.to_string()) {
                        let t = fs::read_to_string(dir.join(rest)).unwrap_or_else(|e| die("vc", &format!("{}: {}", rest, e)));
                        expand(dir, split(&t), true, seen, out);
                        out.push(("endfn".into(), String::new()));
                    }
                }
                "include" => {
                    infn = false;
                    if seen.insert(rest.to_string()) {
                        out.push((d, body));
                    }
                }
                "text" | "item" | "headernames" | "hconst" | "strlist" => {
                    infn = false;
                    out.push((d, body));
                }
                "fn" if imported => {
                    infn = true;
                    out.push((d, body));
                    out.push(("assumed".into(), String::new()));
                }
                "sig" | "spec" | "known" => out.push((d, body)),
                _ if !imported => out.push((d, body)),
                _ => {}
            }
        }
        let _ = infn;
    }
    expand(dir, split(&text), false, &mut BTreeSet::new(), &mut secs);
    let flush = |cur: &mut Option<FnSpec>, pieces: &mut Vec<Piece>| {
        if let Some(f) = cur.take() {
            pieces.push(Piece::Fn(Box::new(f)));
        }
    };
    for (d, body) in secs {
        let (kw, rest) = match d.split_once(char::is_whitespace) {
            Some((a, b)) => (a.to_string(), b.trim().to_string()),
            None => (d.clone(), String::new()),
        };
        let w: Vec<&str> = rest.split_whitespace().collect();
        match kw.as_str() {
            "fn" => {
                flush(&mut cur_fn, &mut pieces);
                cur_fn = Some(FnSpec {
                    file: w[0].into(),
                    path: w[1].into(),
                    opts: base.clone(),
                    ..FnSpec::default()
                });
            }
            "sig" => {
                let f = cur_fn.as_mut().unwrap();
                f.sig = if rest.is_empty() { body.trim().to_string() } else { rest.clone() };
                f.name = fn_name(&f.sig);
            }
            "spec" => cur_fn.as_mut().unwrap().spec = body,
            "attr" => cur_fn.as_mut().unwrap().attr = rest.clone(),
            "hide" => cur_fn.as_mut().unwrap().hide = w.iter().map(|x| format!("    hide({});\n", x)).collect(),
            "nostrlit" => cur_fn.as_mut().unwrap().nostrlit = true,
            "loop" => {
                cur_fn.as_mut().unwrap().opts.loops.insert(rest.parse().unwrap(), body);
            }
            "hint" => {
                cur_fn.as_mut().unwrap().opts.hints.insert(rest.clone(), body);
            }
            "closure" => {
                cur_fn
                    .as_mut()
                    .unwrap()
                    .opts
                    .closures
                    .insert(w[0].parse().unwrap(), body.trim().to_string());
            }
            "deref" => {
                let o = &mut cur_fn.as_mut().unwrap().opts;
                o.deref.extend(w.iter().map(|s| s.to_string()));
            }
            "lift" => {
                // lift NAME ALIAS arg, arg
                let o = &mut cur_fn.as_mut().unwrap().opts;
                let more = rest.splitn(3, char::is_whitespace).nth(2).unwrap_or("").to_string();
                o.lifts.insert(
                    w[0].into(),
                    more.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect(),
                );
                o.lift_alias.insert(w[0].into(), w[1].into());
            }
            "assumed" => cur_fn.as_mut().unwrap().assumed = true,
            "method" | "comb" | "strip" | "effects" | "effect_arg" | "question" | "alias" | "into" | "nom" | "chain" => {
                let o = match cur_fn.as_mut() {
                    Some(f) => &mut f.opts,
                    None => &mut base,
                };
                match kw.as_str() {
                    "method" => {
                        o.methods.insert(w[0].into(), (w[1].into(), w.len() > 2));
                    }
                    "comb" => {
                        o.comb.insert(w[0].into(), w[1].into());
                    }
                    "strip" => o.strip.extend(w.iter().map(|s| s.to_string())),
                    "effects" => o.effects.extend(w.iter().map(|s| s.to_string())),
                    "effect_arg" => o.effect_arg = rest.clone(),
                    "question" => {
                        o.question.insert(w[0].into(), w[1].into());
                    }
                    "alias" => {
                        o.alias.insert(w[0].into(), w[1].into());
                    }
                    "nom" => {
                        o.nom = true;
                        o.nom_bytes = w.first() == Some(&"bytes");
                    }
                    "chain" => o.chain = true,
                    _ => o.into = true,
                }
            }
            "hof" => {
                load(repo, w[0], &mut cache);
                let f = find_in(&cache[w[0]].file.items, w[1])
                    .unwrap_or_else(|| die("lost-anchor", &format!("{} {}", w[0], w[1])));
                let name = w[1].rsplit("::").next().unwrap().to_string();
                let conv = w.get(2).filter(|x| **x != "same").map(|x| x.to_string());
                let cconv = w.get(3).filter(|x| **x != "same").map(|x| x.to_string());
                let d = hof::HofDef { params: f.params, has_self: f.has_self, body: f.body, conv, cconv };
                match cur_fn.as_mut() {
                    Some(f) => f.opts.hof.insert(name, d),
                    None => base.hof.insert(name, d),
                };
            }
            // header name constants of the crate: NAME becomes the call hdr_NAME(), whose value is the source's literal
            "headernames" => {
                flush(&mut cur_fn, &mut pieces);
                load(repo, w[0], &mut cache);
                let toks = cache[w[0]].file.items.iter().find_map(|i| match i {
                    Item::Macro(m) if m.ident.is_none() && m.mac.path.is_ident(w[1]) => Some(m.mac.tokens.clone()),
                    _ => None,
                });
                let v: Vec<TokenTree> = toks.unwrap_or_else(|| die("lost-anchor", &rest)).into_iter().collect();
                let mut t = String::new();
                for i in 0..v.len().saturating_sub(2) {
                    if let (TokenTree::Ident(n), TokenTree::Punct(c), TokenTree::Literal(l)) = (&v[i], &v[i + 1], &v[i + 2]) {
                        if c.as_char() == ':' && base.hconsts.insert(n.to_string()) {
                            t.push_str(&hconst(&n.to_string(), &l.to_string()));
                        }
                    }
                }
                pieces.push(Piece::Text(t));
            }
            // a constant list of strings of the crate: NAME becomes the call lst_NAME()
            "strlist" => {
                flush(&mut cur_fn, &mut pieces);
                load(repo, w[0], &mut cache);
                let c = cache[w[0]].file.items.iter().find_map(|i| match i {
                    Item::Const(c) if c.ident == w[1] => Some((*c.expr).clone()),
                    _ => None,
                });
                let l = match c {
                    Some(Expr::Reference(r)) => match &*r.expr {
                        Expr::Array(a) => a.elems.iter().map(|x| x.to_token_stream().to_string()).collect::<Vec<_>>(),
                        _ => die("lost-anchor", &rest),
                    },
                    _ => die("lost-anchor", &rest),
                };
                base.lconsts.insert(w[1].to_string());
                let q = l.iter().map(|x| format!("x == {}@", x)).collect::<Vec<_>>().join(" || ");
                let rv = l.iter().map(|x| format!("reveal_strlit({});", x)).collect::<Vec<_>>().join(" ");
                pieces.push(Piece::Text(format!(
                    "pub open spec fn in_{0}(x: Seq<char>) -> bool {{ {1} }}\npub proof fn reveal_{0}() {{ {2} }}\n#[verifier::external_body]\npub fn lst_{0}() -> (r: &'static [&'static str]) ensures forall|i: int| 0 <= i < r@.len() ==> in_{0}((#[trigger] r@[i])@), forall|x: Seq<char>| #[trigger] in_{0}(x) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == x {{ unimplemented!() }}\n",
                    w[1], q, rv
                )));
            }
            "hconst" => {
                flush(&mut cur_fn, &mut pieces);
                let mut t = String::new();
                for x in &w {
                    let n = x.to_uppercase().replace('-', "_");
                    if base.hconsts.insert(n.clone()) {
                        t.push_str(&hconst(&n, &format!("{:?}", x)));
                    }
                }
                pieces.push(Piece::Text(t));
            }
            "endfn" => flush(&mut cur_fn, &mut pieces),
            "rewrite" => {
                let (a, b) = rest.split_once("==>").unwrap_or_else(|| die("vc", "rewrite"));
                let a: TokenStream = a.parse().unwrap();
                let b: TokenStream = b.parse().unwrap();
                rewrites.push((a.into_iter().collect(), b));
            }
            "macro" => {
                let ts: TokenStream = body.parse().unwrap();
                macros.insert(w[0].into(), mac::parse_def(ts).unwrap_or_else(|| die("vc", "macro")));
                override_macros.push(w[0].into());
            }
            "item" => {
                flush(&mut cur_fn, &mut pieces);
                pieces.push(Piece::Item(w[0].into(), w[1].into(), w[2..].join(" ")));
            }
            "text" => {
                flush(&mut cur_fn, &mut pieces);
                pieces.push(Piece::Text(body));
            }
            "include" => {
                flush(&mut cur_fn, &mut pieces);
                let t = fs::read_to_string(dir.join(&rest))
                    .unwrap_or_else(|e| die("vc", &format!("{}: {}", rest, e)));
                pieces.push(Piece::Text(t));
            }
            "known" => prelude_known.extend(w.iter().map(|s| s.to_string())),
            "rem" => {}
            k => die("vc", &format!("unknown directive {}", k)),
        }
    }
    flush(&mut cur_fn, &mut pieces);

    // names with a contract or a definition in the prelude
    let mut known = prelude_known;
    for p in &pieces {
        match p {
            Piece::Text(t) => {
                for (i, _) in t.match_indices("fn ") {
                    let n: String = t[i + 3..]
                        .chars()
                        .take_while(|c| c.is_alphanumeric() || *c == '_')
                        .collect();
                    known.insert(n);
                }
            }
            Piece::Fn(f) => {
                known.insert(f.name.clone());
                let last = f.path.rsplit(|c| c == ':' || c == '/' || c == '#').next().unwrap();
                known.insert(last.to_string());
                known.extend(f.opts.lifts.keys().cloned());
                known.extend(f.opts.alias.keys().map(|k| k.rsplit(':').next().unwrap().to_string()));
            }
            _ => {}
        }
    }

    // macros of the crate
    load(repo, "src/internal_macros.rs", &mut cache);
    let defs = cache["src/internal_macros.rs"].file.items.clone();
    for it in &defs {
        if let Item::Macro(m) = it {
            if let (Some(id), Some(d)) = (&m.ident, mac::parse_def(m.mac.tokens.clone())) {
                macros.entry(id.to_string()).or_insert(d);
            }
        }
    }

    let mut outs = String::from("// generated by /verif/extract on every run; do not edit\n#![allow(warnings)]\nuse vstd::prelude::*;\nverus! {\n");
    let mut meta: Vec<String> = vec![];
    let mut uid = 0usize;
    let mut bcast: Vec<String> = vec![];
    for p in &pieces {
        match p {
            Piece::Text(t) => {
                for l in t.lines() {
                    // one module-level `broadcast use` per module: collected at the end
                    match l.strip_prefix("broadcast use ") {
                        Some(x) => bcast.push(x.trim().trim_end_matches(';').to_string()),
                        None => {
                            outs.push_str(l);
                            outs.push('\n');
                        }
                    }
                }
            }
            Piece::Item(file, name, extra) => {
                load(repo, file, &mut cache);
                let mut it = find_item(&cache[file].file.items, name)
                    .unwrap_or_else(|| die("lost-anchor", &format!("{} {}", file, name)));
                StripAttrs.visit_item_mut(&mut it);
                let pubv: Visibility = parse_quote!(pub);
                match &mut it {
                    Item::Const(c) => {
                        c.vis = pubv;
                        struct St;
                        impl VisitMut for St {
                            fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
                                if t.lifetime.is_none() {
                                    t.lifetime = Some(parse_quote!('static));
                                }
                                syn::visit_mut::visit_type_reference_mut(self, t);
                            }
                        }
                        St.visit_type_mut(&mut c.ty);
                    }
                    Item::Enum(c) => c.vis = pubv,
                    Item::Struct(c) => {
                        c.vis = pubv.clone();
                        for f in c.fields.iter_mut() {
                            f.vis = pubv.clone();
                        }
                    }
                    _ => {}
                }
                // lower byte strings and types
                let mut raw = vec![];
                {
                    let mut l = Lower {
                        o: base.clone(),
                        macros: &macros,
                        local_macros: BTreeMap::new(),
                        raw: &mut raw,
                        uid: &mut uid,
                        notes: vec![],
                        nloops: 0,
                        nclosures: 0,
                        strlits: BTreeSet::new(),
                        errors: vec![],
                    };
                    l.run_item(&mut it);
                    if let Item::Const(c) = &mut it {
                        let e = &c.expr;
                        let mut b: Block = parse2(quote!({ #e })).unwrap();
                        l.run(&mut b);
                        if let [Stmt::Expr(e, None)] = &b.stmts[..] {
                            c.expr = Box::new(e.clone());
                        }
                    }
                }
                let mut ts = it.to_token_stream();
                for (a, b) in &rewrites {
                    ts = mac::rewrite(ts, a, b);
                }
                let mut pr = print::Printer::new(&raw);
                pr.print(ts);
                outs.push_str(extra);
                outs.push('\n');
                outs.push_str(&pr.out);
                outs.push_str("\n\n");
            }
            Piece::Fn(f) if f.assumed => {
                outs.push_str(&format!(
                    "// contract of {} {} (verified in its own unit)\n#[verifier::external_body]\n{}\n{}{{ unimplemented!() }}\n\n",
                    f.file, f.path, f.sig, f.spec
                ));
            }
            Piece::Fn(f) => {
                load(repo, &f.file, &mut cache);
                let items = cache[&f.file].file.items.clone();
                let found = find_in(&items, &f.path)
                    .unwrap_or_else(|| die("lost-anchor", &format!("{} {}", f.file, f.path)));
                // macros of the file
                let mut fm = macros.clone();
                for it in &items {
                    if let Item::Macro(m) = it {
                        if let (Some(id), Some(d)) = (&m.ident, mac::parse_def(m.mac.tokens.clone())) {
                            if !override_macros.contains(&id.to_string()) {
                                fm.insert(id.to_string(), d);
                            }
                        }
                    }
                }
                let mut body = found.body.clone();
                if found.mut_self {
                    // `mut self` becomes a local
                    let mut m = BTreeMap::new();
                    m.insert("self".to_string(), parse_quote!(self_));
                    hof::Subst(&m).visit_block_mut(&mut body);
                    body.stmts.insert(0, parse_quote!(let mut self_ = self;));
                }
                if found.has_self && sig_params(&f.sig).iter().any(|p| p == "self_") {
                    let mut m = BTreeMap::new();
                    m.insert("self".to_string(), parse_quote!(self_));
                    hof::Subst(&m).visit_block_mut(&mut body);
                }
                let self_ty = f
                    .path
                    .split_once("::")
                    .map(|(a, _)| a.split('=').next().unwrap().to_string());
                let mut notes;
                {
                    let mut inl = Inline {
                        items: &items,
                        self_ty,
                        known: &known,
                        notes: vec![],
                        depth: 0,
                        uid: 0,
                    };
                    inl.visit_block_mut(&mut body);
                    notes = inl.notes;
                }
                let mut raw: Vec<String> = vec![];
                let (nloops, nclosures, strlits, errors);
                {
                    let mut l = Lower {
                        o: f.opts.clone(),
                        macros: &fm,
                        local_macros: BTreeMap::new(),
                        raw: &mut raw,
                        uid: &mut uid,
                        notes: vec![],
                        nloops: 0,
                        nclosures: 0,
                        strlits: BTreeSet::new(),
                        errors: vec![],
                    };
                    // macro_rules of enclosing functions
                    l.run(&mut body);
                    nloops = l.nloops;
                    nclosures = l.nclosures;
                    strlits = l.strlits.clone();
                    errors = l.errors.clone();
                    notes.extend(l.notes.clone());
                }
                if !errors.is_empty() {
                    die("unsupported", &format!("{} {}: {}", f.file, f.path, errors.join("; ")));
                }
                let canon = sig_params(&f.sig);
                let canon: Vec<String> = canon
                    .into_iter()
                    .filter(|c| c != "self" && c != "self_" && c != "&self" && c != "&mut self" && !c.ends_with(" self"))
                    .collect();
                let mut pre = String::new();
                if found.params.len() > canon.len() {
                    die("shape", &format!("{} {}: parameters changed", f.file, f.path));
                }
                for (p, c) in found.params.iter().zip(canon.iter()) {
                    let (id, ts) = match p {
                        Pat::Ident(i) => (i.ident.to_string(), {
                            let (m, d) = (&i.mutability, &i.ident);
                            quote!(#m #d).to_string()
                        }),
                        p => {
                            let t = p.to_token_stream().to_string();
                            (t.clone(), t)
                        }
                    };
                    let is_mut = ts.starts_with("mut ");
                    if id == "_" {
                        continue;
                    }
                    // a pinned reference stays the parameter itself
                    if &id == c && is_mut && f.sig.contains(&format!("{}: &mut ", c)) {
                        continue;
                    }
                    if &id != c || is_mut {
                        pre.push_str(&format!("    let {} = {};\n", ts, c));
                    }
                }
                let mut lits = strlits.clone();
                lits.remove("");
                let mut rev = String::new();
                for s in lits.iter().filter(|_| !f.nostrlit) {
                    rev.push_str(&format!(" reveal_strlit({:?});", s));
                }
                if strlits.contains("") {
                    rev.push_str(" reveal_strlit(\"\"); assert(\"\"@.len() == 0); assert(\"\"@ =~= Seq::<char>::empty());");
                }
                if !rev.is_empty() {
                    pre.push_str(&format!("    proof {{{} }}\n", rev));
                }
                let mut ts = body.to_token_stream();
                for (a, b) in &rewrites {
                    ts = mac::rewrite(ts, a, b);
                }
                // body without its outer brace
                let inner = match ts.into_iter().next() {
                    Some(TokenTree::Group(g)) => g.stream(),
                    _ => TokenStream::new(),
                };
                let mut pr = print::Printer::new(&raw);
                pr.print(inner);
                outs.push_str(&format!("// @fn {} x\n", f.path));
                if !f.attr.is_empty() {
                    outs.push_str(&f.attr);
                    outs.push('\n');
                }
                if flat && nloops > 0 && !f.attr.contains("loop_isolation") {
                    outs.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
                }
                outs.push_str(&format!("// from {}:{} {}\n", f.file, found.line, f.path));
                outs.push_str(&f.sig);
                outs.push('\n');
                outs.push_str(&f.spec);
                outs.push_str("{\n");
                outs.push_str(&f.hide);
                if probe {
                    // vacuity probe: must be rejected
                    outs.push_str("    proof { assert(false); }\n");
                }
                outs.push_str(&pre);
                outs.push_str(&pr.out);
                outs.push_str("\n}\n// @endfn\n\n");
                meta.push(format!(
                    "{{\"name\":\"{}\",\"file\":\"{}\",\"line\":{},\"path\":\"{}\",\"loops\":{},\"spec_loops\":{},\"closures\":{},\"spec_closures\":{},\"notes\":{}}}",
                    esc(&f.path), esc(&f.file), found.line, esc(&f.path), nloops, f.opts.loops.len(), nclosures, f.opts.closures.len(), jlist(&notes)
                ));
            }
        }
    }
    if !bcast.is_empty() {
        outs.push_str(&format!("broadcast use {{{}}};\n", bcast.join(", ")));
    }
    outs.push_str("} // verus!\nfn main() {}\n");
    fs::write(out, outs).unwrap();
    println!("{{\"functions\":[{}]}}", meta.join(","));
}
