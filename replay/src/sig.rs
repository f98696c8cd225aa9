//! an independent implementation of AWS Signature Version 4 (the oracle)
use hmac::{Hmac, Mac};
use sha2::{Digest, Sha256};

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn sha(b: &[u8]) -> String { hex(&Sha256::digest(b)) }
pub fn mac(k: &[u8], d: &[u8]) -> Vec<u8> {
    let mut m = <Hmac<Sha256> as Mac>::new_from_slice(k).unwrap();
    m.update(d);
    m.finalize().into_bytes().to_vec()
}
pub fn md5(b: &[u8]) -> String { hex(&md5::Md5::digest(b)) }

/// RFC 3986 percent encoding with upper case digits
pub fn enc(s: &[u8], keep_slash: bool) -> String {
    let mut o = String::new();
    for &b in s {
        if b.is_ascii_alphanumeric() || b"-_.~".contains(&b) || (b == b'/' && keep_slash) {
            o.push(b as char)
        } else {
            o.push_str(&format!("%{:02X}", b))
        }
    }
    o
}
#[derive(Clone, Debug)]
pub struct Signer {
    pub access: String,
    pub secret: String,
    pub region: String,
    pub date: String, // 20260101T000000Z
}
impl Signer {
    pub fn day(&self) -> &str { &self.date[..8] }
    pub fn scope(&self) -> String { format!("{}/{}/s3/aws4_request", self.day(), self.region) }
    pub fn key(&self) -> Vec<u8> {
        let k = mac(format!("AWS4{}", self.secret).as_bytes(), self.day().as_bytes());
        let k = mac(&k, self.region.as_bytes());
        let k = mac(&k, b"s3");
        mac(&k, b"aws4_request")
    }
    pub fn sign(&self, sts: &str) -> String { hex(&mac(&self.key(), sts.as_bytes())) }
    /// query: decoded pairs; headers: signed headers (lower case name, value)
    pub fn canonical(&self, method: &str, path: &[u8], query: &[(String, String)], headers: &[(String, String)], payload: &str) -> String {
        let mut q: Vec<(String, String)> =
            query.iter().map(|(a, b)| (enc(a.as_bytes(), false), enc(b.as_bytes(), false))).collect();
        q.sort();
        let q: Vec<String> = q.into_iter().map(|(a, b)| format!("{}={}", a, b)).collect();
        let mut h: Vec<(String, String)> = headers.iter().map(|(a, b)| (a.to_lowercase(), b.trim().to_string())).collect();
        h.sort_by(|a, b| a.0.cmp(&b.0));
        let hs: String = h.iter().map(|(a, b)| format!("{}:{}\n", a, b)).collect();
        let names: Vec<String> = h.iter().map(|(a, _)| a.clone()).collect();
        format!("{}\n{}\n{}\n{}\n{}\n{}", method, enc(path, true), q.join("&"), hs, names.join(";"), payload)
    }
    pub fn sts(&self, canonical: &str) -> String {
        format!("AWS4-HMAC-SHA256\n{}\n{}\n{}", self.date, self.scope(), sha(canonical.as_bytes()))
    }
    pub fn authorization(&self, signed: &[String], signature: &str) -> String {
        format!(
            "AWS4-HMAC-SHA256 Credential={}/{}, SignedHeaders={}, Signature={}",
            self.access, self.scope(), signed.join(";"), signature
        )
    }
    pub fn chunk_sig(&self, prev: &str, data: &[u8]) -> String {
        self.sign(&format!(
            "AWS4-HMAC-SHA256-PAYLOAD\n{}\n{}\n{}\n{}\n{}",
            self.date, self.scope(), prev, sha(b""), sha(data)
        ))
    }
}
