//! helpers of the demonstration
#![allow(dead_code)]
use futures::FutureExt;
use hyper::body::{Bytes, HttpBody};
use s3_server::{S3Service, SimpleAuth};
use std::panic::AssertUnwindSafe;
pub use crate::sig::*;

pub const KEY: &str = "AKIAEXAMPLE";
pub const SECRET: &str = "wJalrXUtnFEMI/K7MDENG/bPxRfiCYEXAMPLEKEY";

pub struct R { pub status: u16, pub headers: Vec<(String, String)>, pub body: Vec<u8>, pub err: Option<String> }
impl R {
    pub fn text(&self) -> String { String::from_utf8_lossy(&self.body).into_owned() }
    pub fn ok(&self) -> bool { self.status >= 200 && self.status < 300 && self.err.is_none() }
    pub fn get(&self, n: &str) -> Option<String> { self.headers.iter().find(|x| x.0 == n).map(|x| x.1.clone()) }
}
pub fn expect(ok: bool, what: &str) {
    if !ok { println!("FAILED: {}", what); std::process::exit(1); }
    println!("ok: {}", what);
}
/// root of a file system storage inside the current (scratch) directory
pub fn root() -> std::path::PathBuf {
    let p = std::env::current_dir().unwrap().join("a/b/c/root");
    std::fs::create_dir_all(&p).unwrap();
    p
}
pub fn fs_service() -> S3Service { S3Service::new(s3_server::storages::fs::FileSystem::new(root()).unwrap()) }
pub fn with_auth(mut s: S3Service) -> S3Service {
    let mut a = SimpleAuth::new();
    a.register(KEY.into(), SECRET.into());
    s.set_auth(a);
    s
}
pub fn signer() -> Signer {
    Signer { access: KEY.into(), secret: SECRET.into(), region: "us-east-1".into(), date: chrono::Utc::now().format("%Y%m%dT%H%M%SZ").to_string() }
}
pub async fn frames(s: &S3Service, method: &str, target: &str, headers: &[(&str, &str)], body: &[&[u8]]) -> R {
    let mut b = hyper::Request::builder().method(method).uri(target);
    for (n, v) in headers { b = b.header(*n, *v); }
    let fr: Vec<Result<Bytes, std::io::Error>> = body.iter().map(|f| Ok(Bytes::from(f.to_vec()))).collect();
    let body = if fr.is_empty() { hyper::Body::empty() } else { hyper::Body::wrap_stream(futures::stream::iter(fr)) };
    let req = b.body(body).unwrap();
    let mut r = R { status: 0, headers: vec![], body: vec![], err: None };
    let res = tokio::time::timeout(std::time::Duration::from_secs(60), AssertUnwindSafe(s.hyper_call(req)).catch_unwind()).await;
    let resp = match res {
        Err(_) => { r.err = Some("no answer".into()); return r; }
        Ok(Err(_)) => { r.err = Some("panic".into()); return r; }
        Ok(Ok(Err(e))) => { r.err = Some(e.to_string()); return r; }
        Ok(Ok(Ok(x))) => x,
    };
    let (parts, mut body) = resp.into_parts();
    r.status = parts.status.as_u16();
    for (n, v) in parts.headers.iter() { r.headers.push((n.as_str().into(), String::from_utf8_lossy(v.as_bytes()).into_owned())); }
    while let Some(c) = body.data().await {
        match c { Ok(b) => r.body.extend_from_slice(&b), Err(e) => { r.err = Some(e.to_string()); break; } }
    }
    r
}
pub async fn call(s: &S3Service, method: &str, target: &str, headers: &[(&str, &str)], body: &[u8]) -> R {
    let mut h: Vec<(&str, &str)> = headers.to_vec();
    let len = body.len().to_string();
    if !body.is_empty() || method == "PUT" { if !h.iter().any(|x| x.0 == "content-length") { h.push(("content-length", &len)); } }
    if body.is_empty() { frames(s, method, target, &h, &[]).await } else { frames(s, method, target, &h, &[body]).await }
}
/// request signed in the Authorization header. `list` is the SignedHeaders list as sent (default: sorted names)
pub async fn signed(s: &S3Service, method: &str, path: &str, query: &[(&str, &str)], extra: &[(&str, &str)], body: &[u8], list: Option<&[&str]>) -> R {
    let g = signer();
    let q: Vec<(String, String)> = query.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let hash = sha(body);
    let mut h: Vec<(String, String)> = vec![("host".into(), "localhost".into()), ("x-amz-content-sha256".into(), hash.clone()), ("x-amz-date".into(), g.date.clone())];
    for (a, b) in extra { h.push((a.to_string(), b.to_string())); }
    let sig = g.sign(&g.sts(&g.canonical(method, path.as_bytes(), &q, &h, &hash)));
    let mut names: Vec<String> = h.iter().map(|x| x.0.clone()).collect();
    names.sort();
    if let Some(l) = list { names = l.iter().map(|x| x.to_string()).collect(); }
    h.push(("authorization".into(), g.authorization(&names, &sig)));
    let qs: Vec<String> = q.iter().map(|(a, b)| format!("{}={}", enc(a.as_bytes(), false), enc(b.as_bytes(), false))).collect();
    let t = if qs.is_empty() { enc(path.as_bytes(), true) } else { format!("{}?{}", enc(path.as_bytes(), true), qs.join("&")) };
    let hh: Vec<(&str, &str)> = h.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    call(s, method, &t, &hh, body).await
}
/// presigned URL; `date` and `expires` as sent
pub fn presign(method: &str, path: &str, query: &[(&str, &str)], date: &str, expires: &str) -> String {
    let mut g = signer();
    g.date = date.into();
    let mut q: Vec<(String, String)> = query.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    q.push(("X-Amz-Algorithm".into(), "AWS4-HMAC-SHA256".into()));
    q.push(("X-Amz-Credential".into(), format!("{}/{}", g.access, g.scope())));
    q.push(("X-Amz-Date".into(), date.into()));
    q.push(("X-Amz-Expires".into(), expires.into()));
    q.push(("X-Amz-SignedHeaders".into(), "host".into()));
    let c = g.canonical(method, path.as_bytes(), &q, &[("host".into(), "localhost".into())], "UNSIGNED-PAYLOAD");
    q.push(("X-Amz-Signature".into(), g.sign(&g.sts(&c))));
    let qs: Vec<String> = q.iter().map(|(a, b)| format!("{}={}", enc(a.as_bytes(), false), enc(b.as_bytes(), false))).collect();
    format!("{}?{}", enc(path.as_bytes(), true), qs.join("&"))
}
/// PUT with a chunk-signed payload; the frames of the body come from `f(chunks)`, one element per chunk: (head, data, tail)
pub async fn chunked(s: &S3Service, path: &str, chunks: &[&[u8]], f: impl Fn(Vec<(String, Vec<u8>, Vec<u8>)>) -> Vec<Vec<u8>>) -> R {
    let g = signer();
    let total: usize = chunks.iter().map(|c| c.len()).sum();
    let h: Vec<(String, String)> = vec![
        ("host".into(), "localhost".into()),
        ("x-amz-content-sha256".into(), "STREAMING-AWS4-HMAC-SHA256-PAYLOAD".into()),
        ("x-amz-date".into(), g.date.clone()),
        ("x-amz-decoded-content-length".into(), total.to_string()),
    ];
    let seed = g.sign(&g.sts(&g.canonical("PUT", path.as_bytes(), &[], &h, "STREAMING-AWS4-HMAC-SHA256-PAYLOAD")));
    let mut prev = seed.clone();
    let mut parts = vec![];
    for c in chunks.iter().chain([&&b""[..]]) {
        let sig = g.chunk_sig(&prev, c);
        parts.push((format!("{:x};chunk-signature={}\r\n", c.len(), sig), c.to_vec(), b"\r\n".to_vec()));
        prev = sig;
    }
    let fr = f(parts);
    let names: Vec<String> = h.iter().map(|x| x.0.clone()).collect();
    let auth = g.authorization(&names, &seed);
    let mut hh: Vec<(&str, &str)> = h.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    hh.push(("authorization", &auth));
    let refs: Vec<&[u8]> = fr.iter().map(|x| x.as_slice()).collect();
    frames(s, "PUT", path, &hh, &refs).await
}
/// POST form; returns the frames of the whole body
pub fn form(fields: &[(&str, &str)], file: &[u8]) -> (String, Vec<u8>) {
    let bd = "9431149156168";
    let mut v = vec![];
    for (n, x) in fields { v.extend_from_slice(format!("--{}\r\nContent-Disposition: form-data; name=\"{}\"\r\n\r\n{}\r\n", bd, n, x).as_bytes()); }
    v.extend_from_slice(format!("--{}\r\nContent-Disposition: form-data; name=\"file\"; filename=\"f.bin\"\r\nContent-Type: text/plain\r\n\r\n", bd).as_bytes());
    v.extend_from_slice(file);
    v.extend_from_slice(format!("\r\n--{}--\r\n", bd).as_bytes());
    (format!("multipart/form-data; boundary={}", bd), v)
}
/// fields of a signed POST form
pub fn post_fields(key: &str) -> Vec<(String, String)> {
    let g = signer();
    let exp = (chrono::Utc::now() + chrono::Duration::hours(1)).format("%Y-%m-%dT%H:%M:%S.000Z").to_string();
    let json = format!("{{\"expiration\":\"{}\",\"conditions\":[]}}", exp);
    let policy = b64(json.as_bytes());
    vec![("key".into(), key.into()), ("policy".into(), policy.clone()), ("x-amz-algorithm".into(), "AWS4-HMAC-SHA256".into()),
        ("x-amz-credential".into(), format!("{}/{}", g.access, g.scope())), ("x-amz-date".into(), g.date.clone()), ("x-amz-signature".into(), g.sign(&policy))]
}
pub fn b64(d: &[u8]) -> String {
    let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { if i <= c.len() { o.push(t[(n >> (18 - 6 * i)) as usize & 63] as char) } else { o.push('=') } }
    }
    o
}
