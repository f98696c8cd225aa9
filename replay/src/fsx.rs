//! C05 - C11: the file system storage behind the real service, against a map
use crate::http::{call, Req, Resp};
use crate::rng::Rng;
use crate::sig::{enc, md5};
use crate::xml;
use crate::Ctx;
use s3_server::storages::fs::FileSystem;
use s3_server::S3Service;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub type Meta = BTreeMap<String, String>;
#[derive(Clone, Debug, PartialEq)]
pub struct Obj { pub data: Vec<u8>, pub meta: Meta }
pub struct World {
    pub svc: S3Service,
    pub root: PathBuf,
    pub model: BTreeMap<String, BTreeMap<String, Obj>>,
    pub log: Vec<String>,
}
pub fn opath(b: &str, k: &str) -> String { format!("/{}/{}", b, enc(k.as_bytes(), true)) }
fn short(d: &[u8]) -> String {
    if d.len() <= 60 { format!("{:?}", String::from_utf8_lossy(d)) } else { format!("{} bytes, md5 {}", d.len(), md5(d)) }
}
static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl World {
    pub fn new(c: &Ctx) -> World {
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let root = c.scratch.join(format!("w{}", n)).join("outer").join("root");
        std::fs::create_dir_all(&root).unwrap();
        let svc = S3Service::new(FileSystem::new(&root).unwrap());
        World { svc, root, model: BTreeMap::new(), log: vec![] }
    }
    pub fn base(&self) -> PathBuf { self.root.parent().unwrap().parent().unwrap().to_path_buf() }
    pub fn drop_files(&self) { let _ = std::fs::remove_dir_all(self.base()); }
    pub async fn go(&mut self, q: Req) -> Resp {
        let r = call(&self.svc, &q).await.unwrap_or_else(|| panic!("request cannot be built: {}", q.show()));
        let mut line = format!("{} {}", q.method, q.target);
        for (n, v) in &q.headers { line.push_str(&format!(" [{}: {}]", n, String::from_utf8_lossy(v))); }
        let total: usize = q.body.iter().map(|f| if let crate::http::Frame::Data(d) = f { d.len() } else { 0 }).sum();
        if !q.body.is_empty() { line.push_str(&format!(" body {} frames {} bytes{}", q.body.len(), total, if q.body.iter().any(|f| matches!(f, crate::http::Frame::Err)) { " then error" } else { "" })); }
        line.push_str(&format!(" -> {}{} {}", r.status, if r.panicked { " PANIC" } else { "" }, r.code().unwrap_or_default()));
        self.log.push(line);
        r
    }
    pub fn hist(&self) -> String { let n = self.log.len(); self.log[n.saturating_sub(60)..].join("\n") }
    pub async fn mkbucket(&mut self, c: &mut Ctx, b: &str) {
        let r = self.go(Req::new("PUT", &format!("/{}", b))).await;
        let exists = self.model.contains_key(b);
        c.eval("create-bucket");
        if exists {
            c.check(r.status == 409 && r.code().as_deref() == Some("BucketAlreadyExists"), "create-existing-bucket", "creating an existing bucket is not refused as such", || format!("{}\n{}", self.hist(), r.show()));
        } else {
            c.check(r.ok(), "create-bucket-failed", "a bucket could not be created", || format!("{}\n{}", self.hist(), r.show()));
            self.model.insert(b.to_string(), BTreeMap::new());
        }
    }
    pub fn put_req(&self, b: &str, k: &str, meta: &Meta, frames: Vec<Vec<u8>>) -> Req {
        let mut q = Req::new("PUT", &opath(b, k));
        for (n, v) in meta { q = q.h(&format!("x-amz-meta-{}", n), v); }
        q.frames(frames)
    }
    pub async fn put(&mut self, c: &mut Ctx, r: &mut Rng, b: &str, k: &str, data: &[u8], meta: &Meta) {
        let q = self.put_req(b, k, meta, r.fragment(data));
        let resp = self.go(q).await;
        c.eval("put");
        if let Some(bk) = self.model.get_mut(b) {
            bk.insert(k.to_string(), Obj { data: data.to_vec(), meta: meta.clone() });
            c.check(resp.ok(), "put-failed", "a PUT was refused", || format!("{}\n{}", self.hist(), resp.show()));
            let want = format!("\"{}\"", md5(data));
            c.check(resp.get("etag").as_deref() == Some(&want), "put-etag", "the ETag of a PUT is not the quoted MD5 of its body", || format!("{}\nexpected {}\n{}", self.hist(), want, resp.show()));
        } else {
            c.check(resp.status == 404 && resp.code().as_deref() == Some("NoSuchBucket"), "put-missing-bucket", "a PUT into a missing bucket is not refused as NoSuchBucket", || format!("{}\n{}", self.hist(), resp.show()));
        }
    }
    /// a PUT whose body fails
    pub async fn put_fail(&mut self, c: &mut Ctx, r: &mut Rng, b: &str, k: &str, data: &[u8], meta: &Meta) {
        let at = r.below(data.len() + 1);
        let q = self.put_req(b, k, meta, r.fragment(&data[..at])).fail();
        let resp = self.go(q).await;
        c.eval("put-failing-body");
        c.check(!resp.ok() && !resp.panicked, "failed-put-succeeds", "a PUT whose body failed was answered with success", || format!("{}\n{}", self.hist(), resp.show()));
    }
    pub async fn check_get(&mut self, c: &mut Ctx, b: &str, k: &str) {
        let want = self.model.get(b).and_then(|x| x.get(k)).cloned();
        let g = self.go(Req::new("GET", &opath(b, k))).await;
        let h = self.go(Req::new("HEAD", &opath(b, k))).await;
        c.eval("get");
        match want {
            None => {
                c.check(g.status == 404 && g.code().as_deref() == Some("NoSuchKey"), "missing-object-served", "GET of an object that does not exist is not NoSuchKey", || format!("{}\n{}", self.hist(), g.show()));
                c.check(h.status == 404, "missing-object-head", "HEAD of an object that does not exist is not 404", || format!("{}\n{}", self.hist(), h.show()));
            }
            Some(o) => {
                c.check(g.ok() && g.body == o.data, "get-content", "GET does not return the stored content", || format!("{}\nGET {}/{}: expected {}\ngot {}\n{}", self.hist(), b, k, short(&o.data), short(&g.body), g.show()));
                let et = format!("\"{}\"", md5(&o.data));
                c.check(g.get("etag").as_deref() == Some(&et), "get-etag", "the ETag of GET is not the quoted MD5 of the content", || format!("{}\nexpected {}\n{}", self.hist(), et, g.show()));
                let len = o.data.len().to_string();
                c.check(g.get("content-length").as_deref() == Some(&len), "get-length", "Content-Length of GET differs from the length of the object", || format!("{}\n{}", self.hist(), g.show()));
                c.check(h.ok() && h.get("content-length").as_deref() == Some(&len), "head-length", "HEAD does not report the length of the object", || format!("{}\nexpected {}\n{}", self.hist(), len, h.show()));
                for (w, x) in [("GET", &g), ("HEAD", &h)] {
                    let m: Meta = x.headers.iter().filter_map(|(n, v)| n.strip_prefix("x-amz-meta-").map(|n| (n.to_string(), String::from_utf8_lossy(v).into_owned()))).collect();
                    c.check(m == o.meta, "metadata", "the user metadata differs from that of the last PUT", || format!("{}\n{} {}/{}: expected {:?}, got {:?}", self.hist(), w, b, k, o.meta, m));
                }
                c.check(h.body.is_empty(), "head-body", "HEAD sends a body", || h.show());
            }
        }
    }
    pub async fn check_list(&mut self, c: &mut Ctx, b: &str, prefix: Option<&str>, v2: bool) {
        let mut t = format!("/{}", b);
        let mut q = vec![];
        if v2 { q.push("list-type=2".to_string()); }
        if let Some(p) = prefix { q.push(format!("prefix={}", enc(p.as_bytes(), false))); }
        if !q.is_empty() { t.push('?'); t.push_str(&q.join("&")); }
        let resp = self.go(Req::new("GET", &t)).await;
        c.eval(if v2 { "list-v2" } else { "list-v1" });
        let bk = match self.model.get(b) {
            None => {
                c.check(resp.status == 404 && resp.code().as_deref() == Some("NoSuchBucket"), "list-missing-bucket", "listing a missing bucket is not NoSuchBucket", || format!("{}\n{}", self.hist(), resp.show()));
                return;
            }
            Some(x) => x,
        };
        let want: Vec<(String, u64)> = bk.iter().filter(|(k, _)| k.starts_with(prefix.unwrap_or(""))).map(|(k, o)| (k.clone(), o.data.len() as u64)).collect();
        let doc = match xml::parse(&resp.body) { Ok(d) if resp.ok() => d, e => { c.fail("list-answer", "a listing is not answered with XML", format!("{}\n{:?}\n{}", self.hist(), e.err(), resp.show())); return } };
        let got: Vec<(String, u64)> = doc.all("Contents").map(|n| (n.t("Key").unwrap_or_default(), n.t("Size").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX))).collect();
        c.check(doc.name == "ListBucketResult" && doc.t("Name").as_deref() == Some(b), "list-name", "a listing does not name its bucket", || format!("{}\n{}", self.hist(), resp.show()));
        c.check(got == want, "list-content", "a listing differs from the stored objects (ascending, with sizes)", || format!("{}\nexpected {:?}\ngot      {:?}", self.hist(), want, got));
        if v2 {
            let n = want.len().to_string();
            c.check(doc.t("KeyCount").as_deref() == Some(&n), "list-key-count", "KeyCount differs from the number of entries", || format!("{}\n{}", self.hist(), resp.show()));
        }
    }
    pub async fn check_buckets(&mut self, c: &mut Ctx) {
        let resp = self.go(Req::new("GET", "/")).await;
        c.eval("list-buckets");
        let want: Vec<String> = self.model.keys().cloned().collect();
        let mut got: Vec<String> = match xml::parse(&resp.body) {
            Ok(d) => d.child("Buckets").map(|x| x.all("Bucket").map(|n| n.t("Name").unwrap_or_default()).collect()).unwrap_or_default(),
            Err(_) => vec!["?".into()],
        };
        got.sort();
        c.check(resp.ok() && got == want, "list-buckets", "ListBuckets differs from the existing buckets", || format!("{}\nexpected {:?}\ngot {:?}\n{}", self.hist(), want, got, resp.show()));
    }
    pub async fn verify(&mut self, c: &mut Ctx, extra: &[(String, String)]) {
        let all: Vec<(String, String)> = self.model.iter().flat_map(|(b, m)| m.keys().map(move |k| (b.clone(), k.clone()))).collect();
        for (b, k) in &all { self.check_get(c, b, k).await; if c.done() { return; } }
        for (b, k) in extra { if !all.contains(&(b.clone(), k.clone())) { self.check_get(c, b, k).await; } }
        let bs: Vec<String> = self.model.keys().cloned().collect();
        for b in &bs { self.check_list(c, b, None, true).await; }
    }
    pub async fn delete(&mut self, c: &mut Ctx, b: &str, k: &str) {
        let resp = self.go(Req::new("DELETE", &opath(b, k))).await;
        c.eval("delete");
        if let Some(m) = self.model.get_mut(b) {
            m.remove(k);
            c.check(resp.status == 204 || resp.ok(), "delete-failed", "a DELETE was refused", || format!("{}\n{}", self.hist(), resp.show()));
        }
    }
    pub async fn copy(&mut self, c: &mut Ctx, raw: bool, sb: &str, sk: &str, db: &str, dk: &str) {
        let src = if raw { format!("{}/{}", sb, sk) } else { format!("{}/{}", sb, enc(sk.as_bytes(), true)) };
        let resp = self.go(Req::new("PUT", &opath(db, dk)).h("x-amz-copy-source", &src)).await;
        c.eval("copy");
        let o = self.model.get(sb).and_then(|m| m.get(sk)).cloned();
        match (o, self.model.contains_key(db)) {
            (Some(o), true) => {
                let et = format!("\"{}\"", md5(&o.data));
                let doc = xml::parse(&resp.body).ok();
                c.check(resp.ok(), "copy-failed", "a copy was refused", || format!("{}\n{}", self.hist(), resp.show()));
                c.check(doc.and_then(|d| d.t("ETag")).as_deref() == Some(&et), "copy-etag", "the ETag of a copy is not the quoted MD5 of the content", || format!("{}\nexpected {}\n{}", self.hist(), et, resp.show()));
                self.model.get_mut(db).unwrap().insert(dk.to_string(), o);
            }
            _ => c.check(!resp.ok() && resp.status >= 400 && !resp.panicked, "copy-not-refused", "a copy from a missing source or into a missing bucket was not refused", || format!("{}\n{}", self.hist(), resp.show())),
        }
    }
    pub async fn multi_delete(&mut self, c: &mut Ctx, b: &str, keys: &[String], quiet: Option<bool>) {
        let mut x = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Delete xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\">");
        for k in keys { x.push_str(&format!("<Object><Key>{}</Key></Object>", xml::esc(k))); }
        if let Some(q) = quiet { x.push_str(&format!("<Quiet>{}</Quiet>", q)); }
        x.push_str("</Delete>");
        let resp = self.go(Req::new("POST", &format!("/{}?delete", b)).body(x.as_bytes())).await;
        self.log.push(format!("   keys {:?}", keys));
        c.eval("multi-delete");
        let m = match self.model.get_mut(b) { Some(m) => m, None => return };
        let existing: BTreeSet<String> = keys.iter().filter(|k| m.contains_key(*k)).cloned().collect();
        for k in keys { m.remove(k); }
        c.check(resp.ok(), "multi-delete-failed", "a multi-object delete was refused", || format!("{}\n{}", self.hist(), resp.show()));
        if let Ok(d) = xml::parse(&resp.body) {
            let got: Vec<String> = d.all("Deleted").map(|n| n.t("Key").unwrap_or_default()).collect();
            let gs: BTreeSet<String> = got.iter().cloned().collect();
            let asked: BTreeSet<String> = keys.iter().cloned().collect();
            c.check((quiet == Some(true) && got.is_empty()) || (existing.is_subset(&gs) && gs.is_subset(&asked)), "multi-delete-report", "the answer of a multi-object delete does not report exactly the deleted keys", || format!("{}\nexpected {:?}\n{}", self.hist(), existing, resp.show()));
            c.check(d.all("Error").next().is_none(), "multi-delete-report", "a multi-object delete reports errors", || format!("{}\n{}", self.hist(), resp.show()));
        } else { c.fail("multi-delete-report", "the answer of a multi-object delete is not XML", format!("{}\n{}", self.hist(), resp.show())); }
    }
}
// directories start with d, files with another character, so that no key is a directory of another
const DIRS: &[&str] = &["d", "d1", "d 2", "d.é", "d%41", "d+", "d-x", "d&<>\"'"];
const FILES: &[&str] = &["a", "b", "A", "ab", "a.txt", "a b", "é", "日本", "a%20b", "a+b", "100%", "..a", "a..", "...", "~", "x;y=z", "q?q", "h#h", "<x>&\"'", "e\u{301}", "\u{1f600}", "-", "_", ".hidden", "a\\b", "a:b", "0", "00", "a'b", "back`tick", "{b}", "!"];
pub fn key(r: &mut Rng) -> String {
    let mut k = String::new();
    let n = *r.pick(&[0usize, 0, 0, 1, 1, 2, 3]);
    for _ in 0..n { k.push_str(r.pick(DIRS)); k.push('/'); }
    k.push_str(r.pick(FILES));
    if r.chance(1, 30) { k.push_str(&"l".repeat(40)); }
    k
}
pub fn data(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(12) { 0 => 0, 1 => 1, 2 => 4095, 3 => 4096, 4 => 4097, 5 => 8192, 6 => 20000, _ => r.range(1, 200) };
    r.bytes(n)
}
pub fn meta(r: &mut Rng) -> Meta {
    let mut m = Meta::new();
    if r.chance(1, 3) { return m; }
    for _ in 0..r.range(1, 4) {
        let n = r.string(&["a", "b", "c-", "_1", "0", "x"], 1, 4);
        let v = r.string(&["v", "W", " x", "\"q\"", "\\", "1", ",", ";=", "{}", "/", "<&>", "%41", "+"], 0, 5);
        m.insert(n, v.trim().to_string());
    }
    m
}
const BUCKETS: &[&str] = &["bucket-a", "bucket-b", "ddd", "bucket.c"];

pub async fn c05(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let mut w = World::new(c);
    w.mkbucket(c, "bucket-a").await;
    let mut sizes: Vec<u64> = vec![0, 1, 2, 3, 10, 255, 256, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 70001];
    if c.thorough { sizes.extend([4194303, 4194304, 4194305, 5000000]); } else { sizes.push(4194305); }
    for _ in 0..c.n(2, 20) { sizes.push(r.range(2, 30000) as u64); }
    for &size in &sizes {
        let d = r.bytes(size as usize);
        w.put(c, &mut r, "bucket-a", "obj", &d, &Meta::new()).await;
        let mut pts: BTreeSet<u64> = BTreeSet::new();
        for x in [0u64, 1, 2, 3, 4095, 4096, 4097, 8191, 8192, size, size / 2, size * 2, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 32), (1 << 32) - 1, 1 << 31] { for y in [x.wrapping_sub(1), x, x.wrapping_add(1)] { pts.insert(y); } }
        let pts: Vec<u64> = pts.into_iter().collect();
        // (header, expected: Some(range) or None: refused with InvalidRange)
        let mut cases: Vec<(Option<String>, Result<(u64, u64), &'static str>)> = vec![(None, Ok((0, size)))];
        let big = size > 100000;
        let mut pairs: Vec<(u64, Option<u64>)> = vec![];
        if big { for _ in 0..30 { let f = r.next() % size; let l = f + r.next() % (size * 2); pairs.push((f, Some(l))); pairs.push((f, None)); } for f in [0, size - 1, size, size + 1, 4194303, 4194304] { pairs.push((f, None)); pairs.push((f, Some(f))); pairs.push((f, Some(u64::MAX))); } }
        else { for &f in &pts { pairs.push((f, None)); for &l in &pts { if f <= l && (c.thorough || r.chance(1, 3) || l == u64::MAX || f + 1 >= size) { pairs.push((f, Some(l))); } } } }
        for (f, l) in pairs {
            let hd = match l { Some(l) => format!("bytes={}-{}", f, l), None => format!("bytes={}-", f) };
            if l.map_or(false, |l| l < f) { continue; }
            let exp = if f >= size { Err("InvalidRange") } else { Ok((f, l.map_or(size, |l| l.min(size - 1) + 1))) };
            cases.push((Some(hd), exp));
        }
        for &n in &pts { if n > 0 { cases.push((Some(format!("bytes=-{}", n)), if size == 0 { Err("any") } else { Ok((size.saturating_sub(n), size)) })); } }
        for bad in ["bytes", "bytes=", "bytes=-", "bytes=a-b", "bytes=5-2", "bytes=0-499;", "bytes 0-1", "octets=0-1", "bytes=1-2-", "bytes=--1", "bytes=18446744073709551616-", "bytes=0-18446744073709551616", "bytes=-99999999999999999999", "bytes=+1-2", "bytes=0x1-2", "bytes=1-1x", "bytes=1.0-2", "=0-1", "bytes=1", "0-1", "bytes=\"0-1\"", "bytes=0-a", "bytes=a-", "bytes=-a", "bytes=2-1"] {
            cases.push((Some(bad.into()), Err("malformed")));
        }
        for (hd, exp) in cases {
            if c.done() { return; }
            let mut q = Req::new("GET", "/bucket-a/obj");
            if let Some(h) = &hd { q = q.h("range", h); }
            w.log.clear();
            let g = w.go(q).await;
            c.eval(&format!("{}/{}", match &hd { None => "none", Some(h) if h.starts_with("bytes=-") => "suffix", _ => "normal" }, match exp { Ok(_) => "served", Err(e) => e }));
            c.sample(|| format!("size {} {:?} => {}", size, hd, g.status));
            match exp {
                Ok((a, b)) => {
                    let want = &d[a as usize..b as usize];
                    c.check(g.ok() && g.body == want, "range-content", "a range was not answered with exactly its bytes", || format!("object of {} bytes, range {:?}: expected bytes {}..{}, got {} bytes{}\n{}", size, hd, a, b, g.body.len(), if d.windows(g.body.len().max(1)).position(|w| w == &g.body[..]).is_none() { " (not a part of the object)" } else { "" }, g.show()));
                    let l = (b - a).to_string();
                    c.check(g.get("content-length").as_deref() == Some(&l), "range-length", "Content-Length differs from the number of bytes", || format!("object of {} bytes, range {:?}, expected {}\n{}", size, hd, l, g.show()));
                }
                Err("any") => c.check(!g.panicked && g.svc_err.is_none() && g.body_err.is_none() && (g.status >= 400 || g.body.is_empty()), "range-empty", "a suffix range of an empty object", || format!("{:?} {}", hd, g.show())),
                Err(e) => {
                    c.check(!g.ok() && g.status >= 400 && g.status < 500 && !g.panicked && g.svc_err.is_none(), "range-not-refused", "a range that cannot be served was not refused", || format!("object of {} bytes, range {:?} ({})\n{}", size, hd, e, g.show()));
                    if e == "InvalidRange" { c.check(g.status == 416 && g.code().as_deref() == Some("InvalidRange"), "range-code", "a range beyond the object is not refused with InvalidRange", || format!("object of {} bytes, range {:?}\n{}", size, hd, g.show())); }
                }
            }
        }
    }
    w.drop_files();
    c.rng = r;
}

/// every file below dir with its content
fn snapshot(dir: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        if let Ok(rd) = std::fs::read_dir(&d) {
            for e in rd.flatten() {
                let p = e.path();
                if e.file_type().map(|t| t.is_dir()).unwrap_or(false) { out.insert(p.clone(), None); todo.push(p); }
                else { out.insert(p.clone(), Some(std::fs::read(&p).unwrap_or_default())); }
            }
        }
    }
    out
}
pub async fn c06(c: &mut Ctx) {
    let mut r = c.rng.clone();
    const SECRET: &[u8] = b"CANARY-ca11ab1e-content";
    for round in 0..c.n(6, 60) {
        let mut w = World::new(c);
        let root = w.root.clone();
        let outer = root.parent().unwrap().to_path_buf();
        let base = w.base();
        for p in [base.join("canary"), outer.join("canary"), outer.join("f1"), root.join("canary"), root.join(".canary")] { std::fs::write(&p, SECRET).unwrap(); }
        std::fs::create_dir_all(outer.join("root2/bucket-a")).unwrap();
        std::fs::write(outer.join("root2/bucket-a/f1"), SECRET).unwrap();
        std::fs::create_dir_all(outer.join("bucket-a")).unwrap();
        std::fs::write(outer.join("bucket-a/f1"), SECRET).unwrap();
        std::fs::create_dir_all(root.join("UPPER")).unwrap();
        std::fs::write(root.join("UPPER/f1"), SECRET).unwrap();
        for b in ["bucket-a", "bucket-b"] { w.mkbucket(c, b).await; }
        w.put(c, &mut r, "bucket-a", "f1", b"mine", &Meta::new()).await;
        w.put(c, &mut r, "bucket-a", "d/f2", b"mine2", &Meta::new()).await;
        let mut m = Meta::new(); m.insert("a".into(), "CANARY-ca11ab1e-meta".into());
        w.put(c, &mut r, "bucket-b", "f1", SECRET, &m).await;
        w.put(c, &mut r, "bucket-b", "d/f2", SECRET, &m).await;
        let abs = |p: &str| base.join(p).to_string_lossy().into_owned();
        let mut keys: Vec<String> = ["..", "../", "../bucket-b", "../bucket-b/f1", "../bucket-b/new", "../canary", "../.canary", "../new", "../../canary", "../../new", "../../../canary", "../../../new", "../../root2/bucket-a/f1", "../../bucket-a/f1", "../UPPER/f1", "../UPPER/new",
            ".", "./", "./.", "d/..", "d/../..", "d/../../bucket-b/f1", "d/../../../canary", "./../bucket-b/f1", "d/./../../bucket-b/f1", "x/y/../../../bucket-b/f1", "../bucket-a/../bucket-b/f1", "..//bucket-b/f1", "../bucket-a/../../canary", "d/../../../../canary", "../bucket-b/d", "../bucket-b/d/f2", "..//..//canary", "../../../../../../../../../../../../../../tmp", "nope/../../bucket-b/f1", "../bucket-abc/f1", "../../root/bucket-b/f1"]
            .iter().map(|s| s.to_string()).collect();
        keys.extend([abs("canary"), format!("/{}", abs("canary")), abs("new"), abs("outer/canary"), abs("outer/root/bucket-b/f1"), abs("outer/root/canary"), format!("..{}", abs("canary")), abs("outer/root2/bucket-a/f1")]);
        for _ in 0..c.n(12, 60) {
            let n = r.range(1, 6);
            let seg: Vec<&str> = (0..n).map(|_| *r.pick(&["..", ".", "", "d", "bucket-b", "bucket-a", "f1", "f2", "canary", "root", "new", "...", "..x", "UPPER"])).collect();
            keys.push(seg.join("/"));
        }
        let allowed_key = |k: &str| -> Option<PathBuf> {
            // Some: names something strictly below the bucket
            let mut v: Vec<&str> = vec![];
            if k.starts_with('/') { return None; }
            for s in k.split('/') { match s { "" | "." => {} ".." => return None, x => v.push(x) } }
            if v.is_empty() { None } else { Some(v.iter().collect()) }
        };
        let id = "0a1b2c3d-4e5f-4a6b-8c7d-9e0f1a2b3c4d";
        for k in &keys {
            if c.done() { return; }
            if k.is_empty() { continue; }
            let good = allowed_key(k);
            let p = opath("bucket-a", k);
            let esc = xml::esc(k);
            let mut reqs: Vec<(&str, Req)> = vec![
                ("get", Req::new("GET", &p)),
                ("head", Req::new("HEAD", &p)),
                ("put", Req::new("PUT", &p).h("x-amz-meta-a", "1").body(b"WRITTEN")),
                ("putdir", Req::new("PUT", &format!("{}/", p)).h("content-length", "0")),
                ("delete", Req::new("DELETE", &p)),
                ("deletedir", Req::new("DELETE", &format!("{}/", p))),
                ("multi-delete", Req::new("POST", "/bucket-a?delete").body(format!("<Delete><Object><Key>{}</Key></Object></Delete>", esc).as_bytes())),
                ("copy-from", Req::new("PUT", "/bucket-a/copy-target").h("x-amz-copy-source", &format!("bucket-a/{}", k))),
                ("copy-from-enc", Req::new("PUT", "/bucket-a/copy-target").h("x-amz-copy-source", &format!("bucket-a/{}", enc(k.as_bytes(), false)))),
                ("copy-to", Req::new("PUT", &p).h("x-amz-copy-source", "bucket-a/f1")),
                ("create-upload", Req::new("POST", &format!("{}?uploads", p))),
                ("part", Req::new("PUT", &format!("{}?partNumber=1&uploadId={}", p, id)).body(b"PART")),
                ("complete", Req::new("POST", &format!("{}?uploadId={}", p, id)).body(b"<CompleteMultipartUpload><Part><ETag>x</ETag><PartNumber>1</PartNumber></Part></CompleteMultipartUpload>")),
            ];
            let mut perm: Vec<usize> = (0..reqs.len() - 2).collect();
            for i in (1..perm.len()).rev() { let j = r.below(i + 1); perm.swap(i, j); }
            perm.extend([reqs.len() - 2, reqs.len() - 1]);
            let take = if c.thorough || round < 2 { perm.len() } else { 6 };
            for i in perm.into_iter().rev().take(take).collect::<Vec<_>>().into_iter().rev() {
                let (name, q) = { let (n, q) = &mut reqs[i]; (*n, q.clone()) };
                let before = snapshot(&base);
                let resp = match call(&w.svc, &q).await { Some(x) => x, None => continue };
                c.eval(&format!("{}/{}", name, if good.is_some() { "below" } else { "elsewhere" }));
                let after = snapshot(&base);
                let mut touched: BTreeSet<PathBuf> = before.keys().chain(after.keys()).filter(|p| before.get(*p) != after.get(*p)).cloned().collect();
                let bdir = root.join("bucket-a");
                let own = |p: &PathBuf| p.parent() == Some(&root) && p.file_name().map_or(false, |n| { let n = n.to_string_lossy(); n.starts_with('.') && n != ".canary" });
                let outside: Vec<&PathBuf> = touched.iter().filter(|p| !p.starts_with(&bdir) && !own(p)).collect();
                c.check(outside.is_empty(), "touches-outside", "a request touched files outside the directory of its bucket", || format!("{}\ntouched {:?}\n{}", q.show(), outside, resp.show()));
                c.check(after.contains_key(&bdir), "bucket-removed", "an object operation removed the directory of the bucket", || q.show());
                if name != "copy-from" { let leak = String::from_utf8_lossy(&resp.body).contains("CANARY") || resp.headers.iter().any(|h| String::from_utf8_lossy(&h.1).contains("CANARY"));
                    c.check(!leak, "reads-outside", "a request returned content of another bucket or from outside the root", || format!("{}\n{}", q.show(), resp.show())); }
                let leaked = after.iter().any(|(p, d)| p.starts_with(&bdir) && d.as_ref().map_or(false, |d| d.windows(6).any(|x| x == b"CANARY")));
                c.check(!leaked, "reads-outside", "a request copied content of another bucket or from outside the root", || format!("{}\n{}", q.show(), resp.show()));
                touched.retain(|p| !own(p));
                if good.is_none() && name != "create-upload" && name != "part" && !(name.ends_with("dir") && allowed_key(&format!("{}/", k)).is_some()) {
                    let refused = resp.status >= 400 && !resp.panicked && resp.svc_err.is_none();
                    c.check(refused, "not-refused", "a key that resolves elsewhere was not refused", || format!("{}\n{}", q.show(), resp.show()));
                    c.check(touched.is_empty(), "touches-outside", "a refused key still changed files", || format!("{}\n{:?}", q.show(), touched));
                    if name == "delete" { let g = call(&w.svc, &Req::new("GET", "/bucket-a/f1")).await.unwrap(); c.check(g.ok(), "touches-outside", "an object disappeared", || q.show()); }
                }
                c.check(!resp.panicked, "panic", "panic", || q.show());
                // restore the files of the bucket when they changed
                if !touched.is_empty() || after != before {
                    for p in after.keys().filter(|p| !before.contains_key(*p)) { if p.exists() { let _ = if p.is_dir() { std::fs::remove_dir_all(p) } else { std::fs::remove_file(p) }; } }
                    for (p, d) in &before { match d { None => { let _ = std::fs::create_dir_all(p); } Some(x) => { if after.get(p) != Some(d) { if p.is_dir() { let _ = std::fs::remove_dir_all(p); } let _ = std::fs::write(p, x); } } } }
                    if name == "part" { let _ = call(&w.svc, &q).await; }
                }
            }
        }
        // upload ids
        let ids: Vec<String> = ["../../x", "../x", "x/../../../canary", "", "..", "a/b", "/abs", "../bucket-b/f1", "%2e%2e/x", "0a1b2c3d-4e5f-4a6b-8c7d-9e0f1a2b3c4d/../../../new", "x.part-1/../bucket-b/f1", "../../outer/new", "x/../../new"]
            .iter().map(|s| s.to_string()).chain([format!("/../..{}", abs("new")), format!("{}/..", id)]).collect();
        // make the lexical traps real directories
        for u in &ids {
            for pn in ["1", "-1", "0", "9223372036854775807"] {
                for name in ["part", "complete"] {
                    let q = if name == "part" { Req::new("PUT", &format!("/bucket-a/obj?partNumber={}&uploadId={}", pn, enc(u.as_bytes(), false))).body(b"PART") }
                        else { Req::new("POST", &format!("/bucket-a/obj?uploadId={}", enc(u.as_bytes(), false))).body(format!("<CompleteMultipartUpload><Part><ETag>x</ETag><PartNumber>{}</PartNumber></Part></CompleteMultipartUpload>", pn).as_bytes()) };
                    let before = snapshot(&base);
                    let resp = match call(&w.svc, &q).await { Some(x) => x, None => continue };
                    c.eval(&format!("upload-id/{}", name));
                    let after = snapshot(&base);
                    let touched: Vec<PathBuf> = before.keys().chain(after.keys()).filter(|p| before.get(*p) != after.get(*p)).cloned().collect();
                    c.check(touched.is_empty() && resp.status >= 400 && !resp.panicked, "upload-id-not-refused", "an upload id that is no id was not refused", || format!("{}\ntouched {:?}\n{}", q.show(), touched, resp.show()));
                    let leaked = after.iter().any(|(p, d)| p.starts_with(root.join("bucket-a")) && d.as_ref().map_or(false, |d| d.windows(6).any(|x| x == b"CANARY")));
                    c.check(!leaked, "reads-outside", "a completed upload contains foreign content", || q.show());
                }
            }
        }
        // copy sources
        for s in ["../outer/canary", "../bucket-a/f1", "..", "../..", "../../canary", "UPPER/f1", "./f1", "root2/bucket-a/f1", "bucket-a/../bucket-b/f1", "bucket-a//../../canary", "..%2Fcanary/x", "bucket-a%2F..%2Fbucket-b%2Ff1", "bucket-a/%2e%2e/canary", "%2e%2e/canary", ".canary", "bucket-b/../../canary"].iter().map(|s| s.to_string()).chain([abs("canary"), format!("bucket-a/{}", abs("canary")), format!("bucket-a/{}", enc(abs("canary").as_bytes(), false))]) {
            let q = Req::new("PUT", "/bucket-a/copy-target").h("x-amz-copy-source", &s);
            let before = snapshot(&base);
            let resp = call(&w.svc, &q).await.unwrap();
            c.eval("copy-source");
            let after = snapshot(&base);
            c.check(before == after && resp.status >= 400 && !resp.panicked, "copy-source-not-refused", "a copy source that resolves elsewhere was not refused", || format!("{}\n{}", q.show(), resp.show()));
            if before != after { let _ = std::fs::remove_file(root.join("bucket-a/copy-target")); }
        }
        // bucket operations with names that resolve elsewhere
        for b in ["..", ".", "%2e%2e", "..%2fbucket-b", "bucket-a%2f..%2f..", "UPPER", ".canary", "canary%2f..", "%2F", "bucket-a%2F..%2F..%2Froot2"] {
            for m in ["PUT", "DELETE", "GET", "HEAD"] {
                let q = Req::new(m, &format!("/{}", b));
                let before = snapshot(&base);
                let resp = match call(&w.svc, &q).await { Some(x) => x, None => continue };
                c.eval("bucket-name");
                let after = snapshot(&base);
                c.check(before == after, "bucket-name-escape", "a bucket operation touched files through an invalid name", || format!("{}\n{}", q.show(), resp.show()));
                let leak = String::from_utf8_lossy(&resp.body).contains("canary");
                c.check(!leak || b == "%2F", "reads-outside", "a listing shows files from outside", || format!("{}\n{}", q.show(), resp.show()));
            }
        }
        w.drop_files();
    }
    c.rng = r;
}

struct Gen { keys: Vec<(String, String)> }
fn gen(r: &mut Rng, nb: usize, nk: usize) -> Gen {
    let mut keys = vec![];
    for _ in 0..nk { keys.push((r.pick(&BUCKETS[..nb]).to_string(), key(r))); }
    // the same key in two buckets, and keys which join to the same path text
    // keys which differ little
    for _ in 0..r.below(3) {
        let (b, k) = r.pick(&keys).clone();
        let i = k.rfind('/').map_or(0, |i| i + 1);
        let (d, f) = k.split_at(i);
        let g = match r.below(8) {
            0 => { let mut cs: Vec<char> = f.chars().collect(); let j = r.below(cs.len()); cs[j] = if cs[j].is_lowercase() { cs[j].to_uppercase().next().unwrap() } else { cs[j].to_lowercase().next().unwrap() }; cs.into_iter().collect() }
            1 => f.to_uppercase(),
            2 => f.to_lowercase(),
            3 => format!("{} ", f),
            4 => format!(" {}", f),
            5 => format!("{}.tmp", f),
            6 => enc(f.as_bytes(), false),
            _ => format!("{}~", f),
        };
        if g.starts_with('d') || g == f || g == "." || g == ".." { continue; }
        keys.push((b, format!("{}{}", d, g)));
    }
    let k = key(r);
    keys.push(("bucket-a".into(), k.clone()));
    keys.push(("bucket-b".into(), k));
    Gen { keys }
}
/// keys close to `k` (the last segment never starts with d, so that no key is a directory of another)
fn family(r: &mut Rng, k: &str) -> Vec<(String, String)> {
    let i = k.rfind('/').map_or(0, |i| i + 1);
    let (d, f) = k.split_at(i);
    let mut fs: Vec<String> = vec![f.to_string(), f.to_uppercase(), f.to_lowercase(), format!("{}~", f), format!("{}.tmp", f), format!(".{}", f), format!("{}0", f), format!("{}{}", f, f), enc(f.as_bytes(), false), f.replace(' ', "+"), f.replace('+', " "), format!("{}%2F", f), format!("{}?", f), format!("{}.metadata.json", f)];
    if let Some((j, _)) = f.char_indices().last() { if j > 0 { fs.push(f[..j].to_string()); } }
    let mut cs: Vec<char> = f.chars().collect();
    cs.reverse();
    fs.push(cs.iter().collect());
    let mut v: Vec<(String, String)> = vec![];
    for g in fs { v.push(("bucket-a".into(), format!("{}{}", d, g))); }
    for e in ["", "d/", "d1/", "d/d/", "D/"] { v.push(("bucket-a".into(), format!("{}{}", e, f))); v.push(("bucket-b".into(), format!("{}{}", e, f))); }
    v.push(("bucket-a".into(), k.replace('/', "-")));
    v.push(("bucket-a".into(), k.replace('/', "%2F")));
    v.retain(|(_, k)| { let l = k.rsplit('/').next().unwrap(); !l.is_empty() && !l.starts_with('d') && l != "." && l != ".." && l != "D" && k.len() < 90 && k.trim() == k });
    v.sort(); v.dedup();
    for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); }
    v
}
/// a family of keys that differ little: each object keeps its own content and metadata
async fn families(c: &mut Ctx, r: &mut Rng, n: usize, op: &str) {
    for i in 0..n {
        if c.done() { return; }
        let mut w = World::new(c);
        w.mkbucket(c, "bucket-a").await;
        w.mkbucket(c, "bucket-b").await;
        let k = match i { 0 => "d/Read-me.txt".to_string(), 1 => "aB".into(), _ => key(r) };
        let fam = family(r, &k);
        for (j, (b, k)) in fam.iter().enumerate() {
            let m = if r.chance(1, 2) { meta(r) } else { Meta::new() };
            w.put(c, r, b, k, format!("content {}", j).as_bytes(), &m).await;
        }
        w.verify(c, &fam).await;
        match op {
            "multi" => {
                let some: Vec<String> = fam.iter().filter(|_| r.chance(1, 2)).map(|x| x.1.clone()).collect();
                if !some.is_empty() { w.multi_delete(c, "bucket-a", &some, None).await; }
                for (b, k) in fam.iter().take(3) { w.delete(c, b, k).await; }
            }
            "copy" => for _ in 0..6 { let (x, y) = (r.pick(&fam).clone(), r.pick(&fam).clone()); w.copy(c, false, &x.0, &x.1, &y.0, &y.1).await; },
            _ => for _ in 0..4 { let x = r.pick(&fam).clone(); let m = meta(r); let d = data(r); if r.chance(1, 3) { w.delete(c, &x.0, &x.1).await } else { w.put(c, r, &x.0, &x.1, &d, &m).await } },
        }
        w.verify(c, &fam).await;
        w.drop_files();
    }
}
async fn step(c: &mut Ctx, r: &mut Rng, w: &mut World, g: &Gen, weights: &[(&str, usize)]) {
    let total: usize = weights.iter().map(|x| x.1).sum();
    let mut n = r.below(total);
    let mut op = "";
    for (o, k) in weights { if n < *k { op = o; break; } n -= k; }
    let (b, k) = r.pick(&g.keys).clone();
    let d = data(r);
    let m = meta(r);
    match op {
        "put" => w.put(c, r, &b, &k, &d, &m).await,
        "put-fail" => w.put_fail(c, r, &b, &k, &d, &m).await,
        "put-class" => {
            let q = w.put_req(&b, &k, &m, r.fragment(&d)).h("x-amz-storage-class", "NOT_A_CLASS");
            let resp = w.go(q).await;
            c.check(resp.status == 400, "storage-class", "an invalid storage class was not refused", || w.hist());
        }
        "delete" => w.delete(c, &b, &k).await,
        "multi" => {
            let mut ks = vec![];
            for _ in 0..r.range(1, 6) { let (b2, k2) = r.pick(&g.keys).clone(); if b2 == b || r.chance(1, 4) { ks.push(k2); } }
            if r.chance(1, 3) { ks.push("never-there".into()); }
            if r.chance(1, 3) { if let Some(x) = ks.first().cloned() { ks.push(x); } }
            // surrounding blanks in XML: see the known finding delete-key-whitespace
            ks.retain(|k| k.trim() == k);
            if ks.is_empty() { ks.push("never-there".into()); }
            let quiet = if r.chance(1, 4) { Some(false) } else { None };
            if w.model.contains_key(&b) { w.multi_delete(c, &b, &ks, quiet).await }
        }
        "copy" | "copy-self" => {
            let (db, dk) = if op == "copy-self" { (b.clone(), k.clone()) } else { r.pick(&g.keys).clone() };
            let raw = k.bytes().all(|x| (33..127).contains(&x) && x != b'%') && r.chance(1, 2);
            w.copy(c, raw, &b, &k, &db, &dk).await
        }
        "mk" => { let b = r.pick(BUCKETS).to_string(); w.mkbucket(c, &b).await }
        "rm" => {
            let b = r.pick(BUCKETS).to_string();
            // only empty buckets: what happens to objects in a deleted bucket is not part of the properties
            if w.model.get(&b).map_or(true, |m| m.is_empty()) {
                let resp = w.go(Req::new("DELETE", &format!("/{}", b))).await;
                let had = w.model.remove(&b).is_some();
                c.eval("delete-bucket");
                c.check(if had { resp.ok() } else { resp.status == 404 && resp.code().as_deref() == Some("NoSuchBucket") }, "delete-bucket", "DELETE of a bucket", || format!("{}\n{}", w.hist(), resp.show()));
            }
        }
        "list" => {
            let ps = prefixes(r, w, &b);
            let p = r.pick(&ps).clone();
            let v2 = r.chance(1, 2);
            w.check_list(c, &b, p.as_deref(), v2).await;
        }
        _ => w.check_get(c, &b, &k).await,
    }
}
fn prefixes(r: &mut Rng, w: &World, b: &str) -> Vec<Option<String>> {
    let mut v: Vec<Option<String>> = vec![None, Some("".into()), Some("d".into()), Some("d/".into()), Some("/".into()), Some("zzz".into()), Some("a".into()), Some("A".into()), Some(".".into()), Some("d1/d".into())];
    if let Some(m) = w.model.get(b) {
        for k in m.keys().take(30) {
            let cs: Vec<char> = k.chars().collect();
            let n = r.range(0, cs.len());
            v.push(Some(cs[..n].iter().collect()));
            v.push(Some(k.clone()));
            v.push(Some(format!("{}x", k)));
            v.push(Some(format!("{}/", k)));
            if let Some(i) = k.rfind('/') { v.push(Some(k[..i].to_string())); v.push(Some(k[..=i].to_string())); }
        }
    }
    v
}
async fn history(c: &mut Ctx, r: &mut Rng, nb: usize, len: usize, weights: &[(&str, usize)], every: usize) {
    let mut w = World::new(c);
    for b in &BUCKETS[..nb] { w.mkbucket(c, b).await; }
    let nk = r.range(2, 7);
    let g = gen(r, nb, nk);
    for i in 0..len {
        if c.done() { break; }
        step(c, r, &mut w, &g, weights).await;
        if i % every == every - 1 { w.verify(c, &g.keys).await; }
    }
    w.verify(c, &g.keys).await;
    c.sample(|| w.hist());
    w.drop_files();
}

pub async fn c07(c: &mut Ctx) {
    let mut r = c.rng.clone();
    for i in 0..c.n(25, 300) {
        if c.done() { break; }
        history(c, &mut r, 1 + i % 3, 14, &[("put", 6), ("put-fail", 3), ("put-class", 1), ("delete", 2), ("copy", 1), ("get", 2), ("multi", 1)], 2).await;
    }
    families(c, &mut r, c.n(4, 60), "put").await;
    // each pair of first and second PUT, with and without metadata
    let mut w = World::new(c);
    w.mkbucket(c, "bucket-a").await;
    for n in [0usize, 1, 100, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 262145] {
        for second in [0usize, 5, 4096] {
            for (m1, m2) in [(true, true), (true, false), (false, true), (false, false)] {
                if c.done() { break; }
                let k = key(&mut r);
                let mm = |b: bool, v: &str| { let mut m = Meta::new(); if b { m.insert("x".into(), v.into()); m.insert(format!("k{}", v), "1".into()); } m };
                let (d1, d2) = (r.bytes(n), r.bytes(second));
                w.put(c, &mut r, "bucket-a", &k, &d1, &mm(m1, "1")).await;
                w.check_get(c, "bucket-a", &k).await;
                w.put_fail(c, &mut r, "bucket-a", &k, &d2, &mm(m2, "3")).await;
                w.check_get(c, "bucket-a", &k).await;
                w.put(c, &mut r, "bucket-a", &k, &d2, &mm(m2, "2")).await;
                w.check_get(c, "bucket-a", &k).await;
                w.log.clear();
            }
        }
    }
    let n = if c.thorough { 9_000_000 } else { 4194400 };
    let d = r.bytes(n);
    let q = w.put_req("bucket-a", "large", &Meta::new(), d.chunks(65536).map(|x| x.to_vec()).collect());
    let resp = w.go(q).await;
    c.eval("put-large");
    c.check(resp.ok() && resp.get("etag") == Some(format!("\"{}\"", md5(&d))), "put-etag", "ETag of a large PUT", || resp.show());
    w.model.get_mut("bucket-a").unwrap().insert("large".into(), Obj { data: d, meta: Meta::new() });
    w.check_get(c, "bucket-a", "large").await;
    // a missing bucket
    w.put(c, &mut r, "nobucket", "k", b"x", &Meta::new()).await;
    w.check_buckets(c).await;
    w.drop_files();
    c.rng = r;
}
pub async fn c08(c: &mut Ctx) {
    let mut r = c.rng.clone();
    for i in 0..c.n(15, 200) {
        let mut w = World::new(c);
        // foreign entries in the root are no buckets
        std::fs::create_dir_all(w.root.join("Not_A_Bucket")).unwrap();
        std::fs::create_dir_all(w.root.join("ab")).unwrap();
        std::fs::create_dir_all(w.root.join(".hidden-dir")).unwrap();
        std::fs::write(w.root.join("bucket-file"), b"").unwrap();
        w.check_buckets(c).await;
        for b in BUCKETS { w.mkbucket(c, b).await; w.check_buckets(c).await; }
        let n = if i == 0 { 300 } else { r.range(0, 25) };
        let mut g = Gen { keys: vec![] };
        for j in 0..n {
            let b = if i == 0 { "bucket-a".to_string() } else { r.pick(&BUCKETS[..3]).to_string() };
            let k = if i == 0 { format!("d{}/d{}/{}", j % 7, j % 3, j) } else { key(&mut r) };
            let d = data(&mut r);
            let m = if r.chance(1, 2) { meta(&mut r) } else { Meta::new() };
            w.put(c, &mut r, &b, &k, &d, &m).await;
            g.keys.push((b, k));
        }
        for b in BUCKETS.iter().map(|s| s.to_string()).chain(["nobucket".to_string()]) {
            for p in prefixes(&mut r, &w, &b) {
                if c.done() { return; }
                for v2 in [false, true] { w.check_list(c, &b, p.as_deref(), v2).await; }
            }
        }
        if !g.keys.is_empty() {
            for _ in 0..10 {
                step(c, &mut r, &mut w, &g, &[("put", 3), ("put-fail", 2), ("delete", 3), ("multi", 2), ("copy", 2), ("mk", 1), ("rm", 2)]).await;
                let b = r.pick(BUCKETS).to_string();
                w.check_list(c, &b, None, true).await;
                w.check_list(c, &b, None, false).await;
                w.check_buckets(c).await;
                if c.done() { return; }
            }
        }
        c.sample(|| w.hist());
        w.drop_files();
    }
    c.rng = r;
}
pub async fn c09(c: &mut Ctx) {
    let mut r = c.rng.clone();
    for i in 0..c.n(25, 300) {
        if c.done() { break; }
        history(c, &mut r, 1 + i % 3, 14, &[("put", 6), ("delete", 5), ("multi", 5), ("copy", 1)], 1).await;
    }
    families(c, &mut r, c.n(4, 60), "multi").await;
    // a deleted object does not hand its metadata to a later one
    let mut w = World::new(c);
    w.mkbucket(c, "bucket-a").await;
    w.mkbucket(c, "bucket-b").await;
    for j in 0..c.n(40, 300) {
        if c.done() { break; }
        let (k, k2) = (key(&mut r), key(&mut r));
        let mut m = Meta::new(); m.insert("old".into(), "1".into());
        w.put(c, &mut r, "bucket-a", &k, b"one", &m).await;
        w.put(c, &mut r, "bucket-b", &k, b"other", &m).await;
        w.put(c, &mut r, "bucket-b", &k2, b"source", &Meta::new()).await;
        if j % 2 == 0 { w.delete(c, "bucket-a", &k).await; } else { w.multi_delete(c, "bucket-a", &[k.clone(), k2.clone()], None).await; }
        w.check_get(c, "bucket-a", &k).await;
        w.check_get(c, "bucket-b", &k).await;
        // the file appears again without the server: no metadata may be left
        let p = w.root.join("bucket-a").join(&k);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, b"outside").unwrap();
        w.model.get_mut("bucket-a").unwrap().insert(k.clone(), Obj { data: b"outside".to_vec(), meta: Meta::new() });
        w.check_get(c, "bucket-a", &k).await;
        w.delete(c, "bucket-a", &k).await;
        // again: success, no change
        w.delete(c, "bucket-a", &k).await;
        w.multi_delete(c, "bucket-a", &[k.clone()], Some(false)).await;
        w.check_list(c, "bucket-a", None, true).await;
        w.log.clear();
    }
    // `e/` and `e` are different keys
    for (file, which) in [(true, 0), (true, 1), (false, 0), (false, 1)] {
        for sub in ["", "d/"] {
            if c.done() { break; }
            let (f, d) = (format!("{}e", sub), format!("{}e/", sub));
            let (kept, gone) = if file { (f.clone(), d.clone()) } else { (d.clone(), f.clone()) };
            if file { let m = meta(&mut r); w.put(c, &mut r, "bucket-a", &f, b"file", &m).await; } else { w.go(Req::new("PUT", &opath("bucket-a", &d)).h("content-length", "0")).await; }
            let resp = if which == 0 { w.go(Req::new("DELETE", &opath("bucket-a", &gone))).await } else {
                let x = format!("<Delete><Object><Key>{}</Key></Object></Delete>", gone);
                w.go(Req::new("POST", "/bucket-a?delete").body(x.as_bytes())).await
            };
            c.eval("delete-slash");
            c.check(resp.ok() && !String::from_utf8_lossy(&resp.body).contains("<Error>"), "delete-failed", "a DELETE was refused", || format!("{}\n{}", w.hist(), resp.show()));
            let h = w.go(Req::new("HEAD", &opath("bucket-a", &kept))).await;
            c.check(h.ok(), "delete-other-slash", "a delete of one of the keys `e` and `e/` removed the other", || format!("{}\n{}", w.hist(), h.show()));
            if file { w.check_get(c, "bucket-a", &f).await; w.delete(c, "bucket-a", &f).await; w.check_get(c, "bucket-a", &f).await; }
            else {
                w.go(Req::new("DELETE", &opath("bucket-a", &d))).await;
                let h = w.go(Req::new("HEAD", &opath("bucket-a", &d))).await;
                c.check(h.status == 404, "delete-directory-key", "a deleted object `e/` is still there", || format!("{}\n{}", w.hist(), h.show()));
            }
        }
    }
    // many keys at once
    let keys: Vec<String> = (0..c.n(60, 400)).map(|i| format!("d{}/{}", i % 5, i)).collect();
    for k in &keys { w.put(c, &mut r, "bucket-a", k, b"x", &Meta::new()).await; }
    let some: Vec<String> = keys.iter().filter(|_| r.chance(1, 2)).cloned().collect();
    w.multi_delete(c, "bucket-a", &some, None).await;
    w.check_list(c, "bucket-a", None, false).await;
    // keys with surrounding blanks name other objects than the bare keys
    w.put(c, &mut r, "bucket-a", "trim", b"x", &Meta::new()).await;
    let x = "<Delete><Object><Key> trim </Key></Object></Delete>";
    let q = Req::new("POST", "/bucket-a?delete").body(x.as_bytes());
    let resp = w.go(q).await;
    let g = w.go(Req::new("GET", "/bucket-a/trim")).await;
    c.eval("multi-delete-blanks");
    c.check(g.ok(), "delete-key-whitespace", "a multi-object delete of \" trim \" deleted the object \"trim\"", || format!("{}\n{}", w.hist(), resp.show()));
    w.drop_files();
    c.rng = r;
}
fn list_xml(parts: &[(i64, String)], r: &mut Rng) -> String {
    let mut x = String::new();
    let style = r.below(3);
    if style > 0 { x.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"); }
    x.push_str(if style == 2 { "<CompleteMultipartUpload xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\">" } else { "<CompleteMultipartUpload>" });
    for (n, e) in parts {
        let e = if style == 1 { e.replace('"', "&quot;") } else { e.clone() };
        if r.chance(1, 2) { x.push_str(&format!("<Part><PartNumber>{}</PartNumber><ETag>{}</ETag></Part>", n, e)); }
        else { x.push_str(&format!("\n  <Part>\n    <ETag>{}</ETag>\n    <PartNumber>{}</PartNumber>\n  </Part>", e, n)); }
    }
    x.push_str("</CompleteMultipartUpload>");
    x
}
pub async fn c10(c: &mut Ctx) {
    let mut r = c.rng.clone();
    struct Up { b: String, k: String, id: String, parts: BTreeMap<i64, Vec<u8>> }
    for round in 0..c.n(30, 400) {
        if c.done() { break; }
        let mut w = World::new(c);
        for b in &BUCKETS[..2] { w.mkbucket(c, b).await; }
        let g = gen(&mut r, 2, 2);
        let mut ups: Vec<Up> = vec![];
        // existing objects
        for (b, k) in g.keys.clone() { if r.chance(1, 2) { let d = data(&mut r); let m = meta(&mut r); w.put(c, &mut r, &b, &k, &d, &m).await; } }
        for _ in 0..r.range(1, 3) {
            let (b, k) = r.pick(&g.keys).clone();
            let q = Req::new("POST", &format!("{}?uploads", opath(&b, &k)));
            let resp = w.go(q).await;
            c.eval("create");
            let d = xml::parse(&resp.body).ok();
            let f = |n: &str| d.as_ref().and_then(|d| d.t(n));
            c.check(resp.ok() && f("Bucket").as_deref() == Some(&b) && f("Key").as_deref() == Some(&k), "create-upload", "CreateMultipartUpload does not name its object", || format!("{}\n{}", w.hist(), resp.show()));
            let id = f("UploadId").unwrap_or_default();
            c.check(!ups.iter().any(|u| u.id == id) && !id.is_empty(), "create-upload", "an upload id was given twice", || w.hist());
            ups.push(Up { b, k, id, parts: BTreeMap::new() });
        }
        let nparts = if round % 4 == 0 { r.range(9, 13) } else { r.range(0, 5) };
        // parts in random order, some twice, some with failing bodies
        let mut plan: Vec<(usize, i64)> = vec![];
        for u in 0..ups.len() { for n in 1..=nparts { plan.push((u, n as i64)); } }
        for i in (1..plan.len()).rev() { let j = r.below(i + 1); plan.swap(i, j); }
        let again: Vec<_> = plan.iter().filter(|_| r.chance(1, 4)).cloned().collect();
        plan.extend(again);
        for (u, n) in plan {
            let d = if r.chance(1, 6) { data(&mut r) } else { let n = r.range(1, 30); r.bytes(n) };
            let fails = r.chance(1, 8);
            let q = Req::new("PUT", &format!("{}?partNumber={}&uploadId={}", opath(&ups[u].b, &ups[u].k), n, ups[u].id));
            let at = r.below(d.len() + 1);
            let q = if fails { q.frames(r.fragment(&d[..at])).fail() } else { q.frames(r.fragment(&d)) };
            let resp = w.go(q).await;
            c.eval(if fails { "part-failing" } else { "part" });
            if fails { c.check(!resp.ok() && !resp.panicked, "failed-part-succeeds", "an UploadPart whose body failed was answered with success", || format!("{}\n{}", w.hist(), resp.show())); continue; }
            c.check(resp.ok() && resp.get("etag") == Some(format!("\"{}\"", md5(&d))), "part-etag", "the ETag of a part is not the quoted MD5 of its body", || format!("{}\n{}", w.hist(), resp.show()));
            ups[u].parts.insert(n, d);
        }
        if r.chance(1, 3) { w.verify(c, &g.keys).await; }
        for u in 0..ups.len() {
            let (b, k, id) = (ups[u].b.clone(), ups[u].k.clone(), ups[u].id.clone());
            let target = format!("{}?uploadId={}", opath(&b, &k), id);
            let et = |n: i64, u: &Up| format!("\"{}\"", u.parts.get(&n).map(|d| md5(d)).unwrap_or_else(|| md5(b"x")));
            // lists which must be refused
            let top = nparts as i64;
            let mut bad: Vec<Vec<i64>> = vec![(1..=top + 1).collect(), vec![2], vec![0], vec![-1], vec![top + 5]];
            if top >= 2 { bad.push(vec![2, 1]); bad.push((2..=top).collect()); bad.push(vec![1, 1]); bad.push(vec![1, 2, 2]); bad.push((1..=top).rev().collect()); }
            if top >= 3 { bad.push(vec![1, 3]); bad.push(vec![1, 3, 2]); }
            if top >= 1 { bad.push(vec![0, 1]); }
            for l in bad {
                if c.done() { return; }
                if !r.chance(1, 2) { continue; }
                let parts: Vec<(i64, String)> = l.iter().map(|&n| (n, et(n, &ups[u]))).collect();
                let q = Req::new("POST", &target).body(list_xml(&parts, &mut r).as_bytes());
                let resp = w.go(q).await;
                w.log.push(format!("   part list {:?} of {} uploaded", l, top));
                c.eval("complete/bad-list");
                c.check(resp.status >= 400 && !resp.panicked && resp.svc_err.is_none(), "bad-part-list-accepted", "completion with a missing part or a list that is not 1..n was not refused", || format!("{}\n{}", w.hist(), resp.show()));
                w.check_get(c, &b, &k).await;
            }
            if r.chance(1, 4) {
                // no such upload
                let q = Req::new("POST", &format!("{}?uploadId={}", opath(&b, &k), "00000000-0000-4000-8000-000000000000")).body(list_xml(&[(1, et(1, &ups[u]))], &mut r).as_bytes());
                let resp = w.go(q).await;
                c.check(resp.status >= 400 && !resp.panicked, "bad-part-list-accepted", "completion of an upload without parts was not refused", || format!("{}\n{}", w.hist(), resp.show()));
                w.check_get(c, &b, &k).await;
            }
            // 1..=n for some n of the contiguous uploaded parts
            let mut cont = 0; while ups[u].parts.contains_key(&(cont + 1)) { cont += 1; }
            if cont == 0 { continue; }
            let n = if r.chance(3, 4) { cont } else { r.range(1, cont as usize) as i64 };
            let parts: Vec<(i64, String)> = (1..=n).map(|i| (i, et(i, &ups[u]))).collect();
            let body = list_xml(&parts, &mut r);
            let frames = r.fragment(body.as_bytes());
            let resp = w.go(Req::new("POST", &target).frames(frames.clone())).await;
            c.eval("complete/good");
            let whole: Vec<u8> = (1..=n).flat_map(|i| ups[u].parts[&i].clone()).collect();
            let want = format!("\"{}\"", md5(&whole));
            let d = xml::parse(&resp.body).ok();
            let f = |n: &str| d.as_ref().and_then(|d| d.t(n));
            c.check(resp.ok(), "complete-failed", "a complete part list was refused", || format!("{}\n{}\n{}", w.hist(), body, resp.show()));
            c.check(f("ETag").as_deref() == Some(&want) && f("Bucket").as_deref() == Some(&b) && f("Key").as_deref() == Some(&k), "complete-etag", "the answer of a completion does not carry the quoted MD5 of the content", || format!("{}\nexpected {}\n{}", w.hist(), want, resp.show()));
            w.model.get_mut(&b).unwrap().insert(k.clone(), Obj { data: whole, meta: Meta::new() });
            w.verify(c, &g.keys).await;
            // the parts are gone
            let resp = w.go(Req::new("POST", &target).frames(frames)).await;
            c.eval("complete/again");
            c.check(resp.status >= 400 && !resp.panicked, "parts-left", "the parts of a completed upload are still there", || format!("{}\n{}", w.hist(), resp.show()));
            w.check_get(c, &b, &k).await;
            for i in 1..=n { ups[u].parts.remove(&i); }
            let left: Vec<String> = std::fs::read_dir(&w.root).unwrap().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).filter(|n| n.contains(&id)).collect();
            c.check(left.len() == ups[u].parts.len(), "parts-left", "files of parts are left after completion, or parts were removed", || format!("{}\n{:?}", w.hist(), left));
        }
        c.sample(|| w.hist());
        w.drop_files();
    }
    c.rng = r;
}
pub async fn c11(c: &mut Ctx) {
    let mut r = c.rng.clone();
    families(c, &mut r, c.n(4, 60), "copy").await;
    for i in 0..c.n(25, 300) {
        if c.done() { break; }
        history(c, &mut r, 1 + i % 3, 14, &[("put", 5), ("delete", 1), ("copy", 8), ("copy-self", 2)], 1).await;
    }
    let mut w = World::new(c);
    w.mkbucket(c, "bucket-a").await;
    w.mkbucket(c, "bucket-b").await;
    for _ in 0..c.n(30, 200) {
        if c.done() { break; }
        let (k, k2) = (key(&mut r), key(&mut r));
        let d = data(&mut r);
        let m = meta(&mut r);
        w.put(c, &mut r, "bucket-a", &k, &d, &m).await;
        w.copy(c, false, "bucket-a", "missing-source", "bucket-b", &k).await;
        w.copy(c, false, "bucket-a", &k, "nobucket", &k2).await;
        w.copy(c, false, "nobucket", &k, "bucket-a", &k).await;
        w.check_get(c, "bucket-a", &k).await;
        w.copy(c, false, "bucket-a", &k, "bucket-a", &k).await;
        w.check_get(c, "bucket-a", &k).await;
        w.copy(c, false, "bucket-a", &k, "bucket-b", &k2).await;
        w.check_get(c, "bucket-b", &k2).await;
        w.check_buckets(c).await;
        w.log.clear();
    }
    let d = r.bytes(if c.thorough { 9_000_000 } else { 4_194_305 });
    w.put(c, &mut r, "bucket-a", "large", &d[..100], &Meta::new()).await;
    let q = w.put_req("bucket-a", "large", &Meta::new(), vec![d.clone()]);
    w.go(q).await;
    w.model.get_mut("bucket-a").unwrap().insert("large".into(), Obj { data: d, meta: Meta::new() });
    w.copy(c, true, "bucket-a", "large", "bucket-b", "large2").await;
    w.check_get(c, "bucket-b", "large2").await;
    w.drop_files();
    c.rng = r;
}
