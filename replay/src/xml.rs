//! a small, strict XML 1.0 reader (independent of the libraries the server uses)
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Node { pub name: String, pub text: String, pub kids: Vec<Node> }
impl Node {
    pub fn child(&self, n: &str) -> Option<&Node> { self.kids.iter().find(|k| k.name == n) }
    pub fn all<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a Node> { self.kids.iter().filter(move |k| k.name == n) }
    pub fn t(&self, n: &str) -> Option<String> { self.child(n).map(|c| c.text.clone()) }
}
pub fn parse(b: &[u8]) -> Result<Node, String> {
    let s = std::str::from_utf8(b).map_err(|_| "not utf-8")?;
    // XML end-of-line normalisation
    let s: String = s.replace("\r\n", "\n").replace('\r', "\n");
    let mut p = P { s: s.as_bytes(), i: 0 };
    p.misc()?;
    let n = p.element(0)?;
    p.misc()?;
    if p.i != p.s.len() { return Err("content after the root element".into()); }
    Ok(n)
}
struct P<'a> { s: &'a [u8], i: usize }
impl<'a> P<'a> {
    fn misc(&mut self) -> Result<(), String> {
        loop {
            while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() { self.i += 1; }
            if self.s[self.i..].starts_with(b"<?") {
                let e = find(&self.s[self.i..], b"?>").ok_or("unterminated declaration")?;
                self.i += e + 2;
            } else { return Ok(()); }
        }
    }
    fn element(&mut self, depth: usize) -> Result<Node, String> {
        if depth > 40 { return Err("too deep".into()); }
        if self.s.get(self.i) != Some(&b'<') { return Err(format!("expected an element at {}", self.i)); }
        self.i += 1;
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"-_.:".contains(&self.s[self.i])) { self.i += 1; }
        let name = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
        if name.is_empty() { return Err("empty element name".into()); }
        // attributes are skipped
        let e = find(&self.s[self.i..], b">").ok_or("unterminated tag")?;
        let tag = &self.s[self.i..self.i + e];
        self.i += e + 1;
        let mut n = Node { name: name.clone(), ..Node::default() };
        if tag.ends_with(b"/") { return Ok(n); }
        let mut text: Vec<u8> = vec![];
        loop {
            if self.i >= self.s.len() { return Err(format!("element {} not closed", name)); }
            if self.s[self.i..].starts_with(b"</") {
                self.i += 2;
                let e = find(&self.s[self.i..], b">").ok_or("unterminated end tag")?;
                let en = String::from_utf8_lossy(&self.s[self.i..self.i + e]).trim_end().to_string();
                self.i += e + 1;
                if en != name { return Err(format!("{} closed by {}", name, en)); }
                n.text = String::from_utf8(text).map_err(|_| "text not utf-8")?;
                if n.text.chars().any(|c| (c < ' ' && !"\t\n\r".contains(c)) || c == '\u{fffe}' || c == '\u{ffff}') {
                    return Err("character not allowed in XML".into());
                }
                return Ok(n);
            }
            if self.s[self.i..].starts_with(b"<![CDATA[") {
                let e = find(&self.s[self.i..], b"]]>").ok_or("unterminated CDATA")?;
                text.extend_from_slice(&self.s[self.i + 9..self.i + e]);
                self.i += e + 3;
                continue;
            }
            if self.s[self.i] == b'<' {
                let k = self.element(depth + 1)?;
                n.kids.push(k);
                continue;
            }
            if self.s[self.i..].starts_with(b"]]>") { return Err("]]> in text".into()); }
            if self.s[self.i] == b'&' {
                let e = find(&self.s[self.i..], b";").ok_or("unterminated entity")?;
                let ent = std::str::from_utf8(&self.s[self.i + 1..self.i + e]).map_err(|_| "entity")?;
                let c = match ent {
                    "lt" => '<', "gt" => '>', "amp" => '&', "quot" => '"', "apos" => '\'',
                    _ => {
                        let v = if let Some(h) = ent.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() }
                                else if let Some(d) = ent.strip_prefix('#') { d.parse().ok() } else { None };
                        v.and_then(char::from_u32).ok_or(format!("entity {}", ent))?
                    }
                };
                if (c < ' ') && !"\t\n\r".contains(c) { return Err("character reference not allowed in XML".into()); }
                let mut b = [0; 4];
                text.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                self.i += e + 1;
                continue;
            }
            text.push(self.s[self.i]);
            self.i += 1;
        }
    }
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).position(|w| w == n) }
pub fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\r', "&#13;")
}
