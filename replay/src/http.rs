//! running requests against the real service
use futures::FutureExt;
use hyper::body::Bytes;
use s3_server::S3Service;
use std::io;
use std::panic::AssertUnwindSafe;

#[derive(Clone, Debug, Hash)]
pub enum Frame { Data(Vec<u8>), Err }

#[derive(Clone, Debug, Hash)]
pub struct Req {
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<Frame>,
}
impl Req {
    pub fn new(method: &str, target: &str) -> Req {
        Req { method: method.into(), target: target.into(), headers: vec![], body: vec![] }
    }
    pub fn h(mut self, n: &str, v: &str) -> Req { self.headers.push((n.into(), v.as_bytes().to_vec())); self }
    pub fn body(mut self, b: &[u8]) -> Req { self.body = vec![Frame::Data(b.to_vec())]; self }
    pub fn frames(mut self, f: Vec<Vec<u8>>) -> Req { self.body = f.into_iter().map(Frame::Data).collect(); self }
    pub fn fail(mut self) -> Req { self.body.push(Frame::Err); self }
    pub fn build(&self) -> Option<hyper::Request<hyper::Body>> {
        let mut b = hyper::Request::builder().method(self.method.as_bytes()).uri(self.target.as_str());
        for (n, v) in &self.headers {
            b = b.header(n.as_str(), http::HeaderValue::from_bytes(v).ok()?);
        }
        let frames: Vec<Result<Bytes, io::Error>> = self
            .body
            .iter()
            .map(|f| match f {
                Frame::Data(d) => Ok(Bytes::from(d.clone())),
                Frame::Err => Err(io::Error::new(io::ErrorKind::Other, "transport error")),
            })
            .collect();
        let body = if frames.is_empty() { hyper::Body::empty() } else { hyper::Body::wrap_stream(futures::stream::iter(frames)) };
        b.body(body).ok()
    }
    pub fn show(&self) -> String {
        let mut s = format!("{} {}\n", self.method, self.target);
        for (n, v) in &self.headers { s.push_str(&format!("{}: {}\n", n, String::from_utf8_lossy(v))); }
        let total: usize = self.body.iter().map(|f| if let Frame::Data(d) = f { d.len() } else { 0 }).sum();
        s.push_str(&format!("[body: {} frames, {} bytes{}]\n", self.body.len(), total,
            if self.body.iter().any(|f| matches!(f, Frame::Err)) { ", then a transport error" } else { "" }));
        let mut shown = 0;
        for f in &self.body {
            match f {
                Frame::Err => s.push_str("  <error>\n"),
                Frame::Data(d) => {
                    if shown < 12 { s.push_str(&format!("  {:?}\n", String::from_utf8_lossy(&d[..d.len().min(400)]))); }
                    shown += 1;
                }
            }
        }
        s
    }
}
#[derive(Clone, Debug)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    pub body_err: Option<String>,
    pub panicked: bool,
    pub svc_err: Option<String>,
}
impl Resp {
    pub fn ok(&self) -> bool { !self.panicked && self.svc_err.is_none() && self.status < 300 && self.body_err.is_none() }
    pub fn get(&self, n: &str) -> Option<String> {
        self.headers.iter().find(|(a, _)| a == n).map(|(_, v)| String::from_utf8_lossy(v).into_owned())
    }
    pub fn code(&self) -> Option<String> {
        let d = crate::xml::parse(&self.body).ok()?;
        if d.name != "Error" { return None; }
        d.child("Code").map(|c| c.text.clone())
    }
    pub fn show(&self) -> String {
        let mut s = format!("status {}{}{}\n", self.status, if self.panicked { " PANIC" } else { "" },
            self.svc_err.as_ref().map(|e| format!(" service error {}", e)).unwrap_or_default());
        for (n, v) in &self.headers { s.push_str(&format!("{}: {}\n", n, String::from_utf8_lossy(v))); }
        s.push_str(&format!("[body {} bytes{}] {:?}", self.body.len(),
            self.body_err.as_ref().map(|e| format!(", error {}", e)).unwrap_or_default(),
            String::from_utf8_lossy(&self.body[..self.body.len().min(300)])));
        s
    }
}
/// None: the request cannot be expressed in HTTP
pub async fn call(svc: &S3Service, req: &Req) -> Option<Resp> {
    let r = req.build()?;
    crate::distinct(req);
    let mut out = Resp { status: 0, headers: vec![], body: vec![], body_err: None, panicked: false, svc_err: None };
    let fut = AssertUnwindSafe(async {
        match svc.hyper_call(r).await {
            Err(e) => { out.svc_err = Some(e.to_string()); }
            Ok(resp) => {
                let (parts, mut body) = resp.into_parts();
                out.status = parts.status.as_u16();
                for (n, v) in parts.headers.iter() { out.headers.push((n.as_str().into(), v.as_bytes().to_vec())); }
                use hyper::body::HttpBody;
                while let Some(c) = body.data().await {
                    match c {
                        Ok(b) => out.body.extend_from_slice(&b),
                        Err(e) => { out.body_err = Some(e.to_string()); break; }
                    }
                }
            }
        }
    });
    let res = tokio::time::timeout(std::time::Duration::from_secs(20), fut.catch_unwind()).await;
    match res {
        Ok(Ok(())) => {}
        Ok(Err(_)) => out.panicked = true,
        Err(_) => out.svc_err = Some("no answer within 20 s".into()),
    }
    Some(out)
}
