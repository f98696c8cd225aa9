//! Token stream -> text, with contract text spliced in at marker macros.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub raw: &'a [String],
    pub out: String,
    ind: usize,
    glue: bool,
}

impl<'a> Printer<'a> {
    pub fn new(raw: &'a [String]) -> Self {
        Printer { raw, out: String::new(), ind: 0, glue: true }
    }
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        self.out.push('\n');
        for _ in 0..self.ind {
            self.out.push_str("    ");
        }
        self.glue = true;
    }
    fn word(&mut self, s: &str) {
        if !self.glue {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.glue = false;
    }
    /// `__vmark ! { n }` -> n
    fn marker(ts: &[TokenTree], name: &str) -> Option<usize> {
        if ts.len() < 3 {
            return None;
        }
        match (&ts[0], &ts[1], &ts[2]) {
            (TokenTree::Ident(i), TokenTree::Punct(p), TokenTree::Group(g))
                if i == name && p.as_char() == '!' =>
            {
                g.stream().to_string().trim().parse().ok()
            }
            _ => None,
        }
    }
    pub fn print(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if let Some(n) = Self::marker(&v[i..], "__vmark") {
                self.nl();
                let t = self.raw[n].clone();
                self.out.push_str(&t);
                self.nl();
                i += 3;
                if let Some(TokenTree::Punct(p)) = v.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                continue;
            }
            if let Some(n) = Self::marker(&v[i..], "__vraw") {
                let t = self.raw[n].clone();
                self.word(&t);
                i += 3;
                continue;
            }
            if let (TokenTree::Ident(id), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
                if id == "__vclosure" {
                    // __vclosure(n, { body })
                    let a: Vec<TokenTree> = g.stream().into_iter().collect();
                    if let TokenTree::Literal(l) = &a[0] {
                        let n: usize = l.to_string().parse().unwrap();
                        let t = self.raw[n].clone();
                        self.word(&t);
                    }
                    self.print(a[2..].iter().cloned().collect());
                    i += 2;
                    continue;
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let mut start = 0;
                            if let Some(n) = Self::marker(&inner, "__vloop") {
                                let t = self.raw[n].clone();
                                self.nl();
                                self.out.push_str(&t);
                                self.nl();
                                start = 3;
                                if let Some(TokenTree::Punct(p)) = inner.get(3) {
                                    if p.as_char() == ';' {
                                        start = 4;
                                    }
                                }
                            }
                            self.word("{");
                            self.ind += 1;
                            self.nl();
                            self.print(inner[start..].iter().cloned().collect());
                            self.ind -= 1;
                            self.nl();
                            self.out.push('}');
                            self.glue = false;
                            // newline unless something continues the expression
                            let cont = match v.get(i + 1) {
                                Some(TokenTree::Ident(id)) => id == "else",
                                Some(TokenTree::Punct(_)) => true,
                                None => true,
                                _ => false,
                            };
                            if !cont {
                                self.nl();
                            }
                        }
                        Delimiter::Parenthesis | Delimiter::Bracket => {
                            let (a, b) = if g.delimiter() == Delimiter::Parenthesis {
                                ("(", ")")
                            } else {
                                ("[", "]")
                            };
                            self.word(a);
                            self.glue = true;
                            self.print(g.stream());
                            self.out.push_str(b);
                            self.glue = false;
                        }
                        Delimiter::None => {
                            self.print(g.stream());
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    self.word(&c.to_string());
                    if p.spacing() == Spacing::Joint || c == '\'' {
                        self.glue = true;
                    } else {
                        self.glue = false;
                        if c == ';' {
                            self.nl();
                        }
                    }
                }
                TokenTree::Ident(id) => self.word(&id.to_string()),
                TokenTree::Literal(l) => self.word(&l.to_string()),
            }
            i += 1;
        }
    }
}
