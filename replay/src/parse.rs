//! C15 (header and query lookup) and C16 (dates, credentials, Authorization, content hash, range)
use crate::auth::{service, sign_header, sign_form, policy, Form, Mode, Plan, USERS, now_date};
use crate::http::{call, Req};
use crate::rng::Rng;
use crate::sig::{enc, Signer};
use crate::Ctx;
use s3_server::headers::{AmzContentSha256, AmzDate, AuthorizationV4, Range};

const GET_FIELDS: &[(&str, &str)] = &[
    ("if-match", "if_match"), ("if-modified-since", "if_modified_since"), ("if-none-match", "if_none_match"), ("if-unmodified-since", "if_unmodified_since"),
    ("range", "range"), ("x-amz-server-side-encryption-customer-algorithm", "sse_customer_algorithm"),
    ("x-amz-server-side-encryption-customer-key", "sse_customer_key"), ("x-amz-server-side-encryption-customer-key-md5", "sse_customer_key_md5"),
    ("x-amz-request-payer", "request_payer"),
];
const V2_FIELDS: &[(&str, &str)] = &[("continuation-token", "continuation_token"), ("delimiter", "delimiter"), ("encoding-type", "encoding_type"), ("prefix", "prefix"), ("start-after", "start_after")];
const V1_FIELDS: &[(&str, &str)] = &[("delimiter", "delimiter"), ("encoding-type", "encoding_type"), ("marker", "marker"), ("prefix", "prefix")];
/// a name close to `n` in the order of names, but different
fn near(r: &mut Rng, n: &str) -> String {
    match r.below(7) {
        6 => { let mut b = n.as_bytes().to_vec(); let i = r.below(b.len()); b[i] = b[i].to_ascii_uppercase(); String::from_utf8(b).unwrap() }
        0 => format!("{}0", n),
        1 => format!("{}z", n),
        2 => n[..n.len() - 1].to_string(),
        3 => format!("{}-", n),
        4 => { let mut b = n.as_bytes().to_vec(); let l = b.len() - 1; b[l] = if b[l] == b'a' { b'b' } else { b[l] - 1 }; String::from_utf8(b).unwrap() }
        _ => { let mut b = n.as_bytes().to_vec(); let l = b.len() - 1; b[l] = if b[l] == b'z' { b'y' } else { b[l] + 1 }; String::from_utf8(b).unwrap() }
    }
}
fn field_is(input: &str, field: &str, sent: &[String]) -> bool {
    if sent.is_empty() { return input.contains(&format!(" {}: None", field)); }
    sent.iter().any(|v| input.contains(&format!(" {}: Some({:?})", field, v)))
}
fn shuffle<T>(r: &mut Rng, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); } }

pub async fn c15(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let (svc, rec) = service(false);
    let rounds = c.n(3000, 60000);
    for round in 0..rounds {
        if c.done() { return; }
        let kind = round % 3;
        let fields: &[(&str, &str)] = match kind { 0 => GET_FIELDS, 1 => V2_FIELDS, _ => V1_FIELDS };
        let mut sent: Vec<(String, String)> = vec![];
        let dense = r.below(3);
        for (n, _) in fields {
            let times = match dense { 0 => r.below(2), 1 => *r.pick(&[0usize, 1, 1, 2, 3]), _ => *r.pick(&[0usize, 0, 0, 0, 1]) };
            for _ in 0..times { sent.push((n.to_string(), String::new())); }
            if r.chance(1, 3) { let mut m = near(&mut r, n); if kind == 0 { m = m.to_lowercase(); } if !fields.iter().any(|f| f.0 == m) { sent.push((m, String::new())); } }
        }
        // up to about forty entries: more than the small vectors hold inline
        let extra = *r.pick(&[0usize, 0, 1, 2, 5, 15, 16, 17, 30]);
        for _ in 0..extra {
            let n = r.string(&["a", "c", "d", "e", "i", "m", "p", "r", "s", "x-amz-", "z", "0", "-"], 1, 4);
            let mut n = format!("{}q", n);
            if kind != 0 && r.chance(1, 2) { let c0 = n.remove(0).to_ascii_uppercase(); n.insert(0, c0); }
            sent.push((n, String::new()));
        }
        for (i, x) in sent.iter_mut().enumerate() {
            x.1 = if kind == 0 { r.string(&["a", "B", "1", "=", ",", "\"", "z", ":", "/"], 0, 5) } else { r.string(&["a", "B", "%", "+", "%41", "%2B", " ", "&", "=", "é", "日", "/", "\u{0}", "%00", "z"], 0, 5) };
            if r.chance(4, 5) { x.1.push_str(&i.to_string()); }
        }
        shuffle(&mut r, &mut sent);
        let mut q = if kind == 0 { Req::new("GET", "/bkt/some/key") } else {
            let mut parts: Vec<String> = sent.iter().map(|(n, v)| {
                let style = r.below(4);
                let e = |s: &str| match style {
                    0 => enc(s.as_bytes(), false),
                    1 => enc(s.as_bytes(), false).replace("%20", "+"),
                    2 => s.bytes().map(|b| format!("%{:02x}", b)).collect(),
                    _ => s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-_.~/:".contains(&b) { (b as char).to_string() } else { format!("%{:02X}", b) }).collect(),
                };
                if v.is_empty() && r.chance(1, 2) { e(n) } else { format!("{}={}", e(n), e(v)) }
            }).collect();
            if kind == 1 { let at = r.below(parts.len() + 1); parts.insert(at, "list-type=2".into()); }
            Req::new("GET", &if parts.is_empty() { "/bkt".to_string() } else { format!("/bkt?{}", parts.join("&")) })
        };
        if kind == 0 { for (n, v) in &sent { q = q.h(n, v); } }
        let _ = rec.take_calls();
        let resp = match call(&svc, &q).await { Some(x) => x, None => continue };
        let calls = rec.take_calls();
        c.eval(["lookup/header", "lookup/query/v2", "lookup/query/v1"][kind]);
        c.sample(|| q.show());
        if calls.len() != 1 {
            c.fail("request-not-dispatched", "a well-formed request did not reach the storage exactly once", format!("{}\n{}\n{:?}", q.show(), resp.show(), calls));
            continue;
        }
        for (n, f) in fields {
            let vs: Vec<String> = sent.iter().filter(|x| x.0 == *n).map(|x| x.1.clone()).collect();
            c.check(field_is(&calls[0].input, f, &vs), "lookup-wrong-value", &format!("the lookup of {} does not give a value sent under exactly that name (None iff absent)", n),
                || format!("{}\nvalues sent under {}: {:?}\nrequest seen by the storage: {}", q.show(), n, vs, calls[0].input));
        }
    }
    // signed headers: exactly the named ones take part in the signature
    let (svc, rec) = service(true);
    for _ in 0..c.n(250, 4000) {
        if c.done() { return; }
        let mut headers: Vec<(String, String)> = vec![];
        for i in 0..r.below(36) {
            let n = if r.chance(1, 4) { r.pick(crate::auth::NEUTRAL).to_string() } else { format!("h{}{}", r.string(&["a", "b", "-", "0", "z", "x-amz-"], 1, 3), if r.chance(1, 2) { String::new() } else { i.to_string() }) };
            if headers.iter().any(|h| h.0 == n) { continue; }
            headers.push((n, r.string(&["a", "b", "=", ",", ":"], 0, 4)));
        }
        let p = Plan { op: "GetObject", method: "GET".into(), path: "/bkt/k".into(), query: vec![], headers, body: vec![] };
        let u = r.below(USERS.len());
        let s = Signer { access: USERS[u].0.into(), secret: USERS[u].1.into(), region: "us-east-1".into(), date: now_date(0) };
        let base = sign_header(&mut r, &p, Mode::Hash, &s);
        let mut b = base.clone();
        let (mut what, mut served) = ("as signed", true);
        match r.below(5) {
            0 => {}
            4 => { shuffle(&mut r, &mut b.signed); what = "the list of signed headers in another order"; }
            1 => { // change one signed header (not the ones with a meaning of their own)
                let idx: Vec<usize> = (0..b.headers.len()).filter(|&i| b.signed.contains(&b.headers[i].0) && b.headers[i].0.starts_with('h')).collect();
                if idx.is_empty() { continue; }
                let i = *r.pick(&idx);
                if r.chance(1, 2) { b.headers[i].1.push('x') } else { b.headers.remove(i); }
                what = "a signed header changed"; served = false;
            }
            2 => {
                let idx: Vec<usize> = (0..b.headers.len()).filter(|&i| !b.signed.contains(&b.headers[i].0)).collect();
                if idx.is_empty() { continue; }
                let i = *r.pick(&idx);
                b.headers[i].1.push('x'); what = "an unsigned header changed";
            }
            _ => {
                let n = near(&mut r, &base.signed[0].clone()).to_lowercase();
                if b.headers.iter().any(|h| h.0 == n) || b.signed.contains(&n) || n.ends_with('-') && n.len() < 2 { continue; }
                b.headers.push((n, "v".into())); what = "an unsigned header added";
            }
        }
        let q = b.req(&mut r);
        let _ = rec.take_calls();
        let resp = match call(&svc, &q).await { Some(x) => x, None => continue };
        let calls = rec.take_calls();
        c.eval(&format!("signed-set/{}", what));
        c.check((calls.len() == 1 && resp.ok()) == served, "signed-header-set", &format!("the headers in the signature are not exactly those named as signed: {}", what),
            || format!("{}\nsigned: {:?}\nexpected served: {}\n{}", q.show(), base.signed, served, resp.show()));
    }
}

// ---- C16
fn leap(y: u32) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
fn real_day(d: &str) -> bool {
    let b = d.as_bytes();
    if b.len() != 8 || !b.iter().all(|c| c.is_ascii_digit()) { return false; }
    let n = |a: usize, z: usize| d[a..z].parse::<u32>().unwrap();
    let (y, m, dd) = (n(0, 4), n(4, 6), n(6, 8));
    let len = match m { 1 | 3 | 5 | 7 | 8 | 10 | 12 => 31, 4 | 6 | 9 | 11 => 30, 2 => if leap(y) { 29 } else { 28 }, _ => return false };
    dd >= 1 && dd <= len
}
#[derive(Debug, PartialEq)]
struct Cred { access: String, date: String, region: String, service: String }
/// parses a credential at the start; the rest is returned
fn cred(s: &str) -> Option<(Cred, &str)> {
    let mut it = s.splitn(5, '/');
    let (a, d, rg, sv) = (it.next()?, it.next()?, it.next()?, it.next()?);
    let rest = it.next()?.strip_prefix("aws4_request")?;
    if a.is_empty() || sv.is_empty() || !real_day(d) { return None; }
    Some((Cred { access: a.into(), date: d.into(), region: rg.into(), service: sv.into() }, rest))
}
type Auth = (String, Cred, Vec<String>, String);
fn ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
fn oracle_auth(s: &str) -> Option<Auth> {
    let i = s.find(|c: char| c.is_ascii_whitespace())?;
    if i == 0 { return None; }
    let (alg, rest) = s.split_at(i);
    let r2 = rest.trim_start_matches(ws);
    if r2.len() == rest.len() { return None; }
    let (cr, rest) = cred(r2.strip_prefix("Credential=")?)?;
    let rest = rest.strip_prefix(',')?.trim_start_matches(ws).strip_prefix("SignedHeaders=")?;
    let (names, rest) = rest.split_at(rest.find(',')?);
    let names: Vec<String> = names.split(';').map(|x| x.to_string()).collect();
    if names.iter().any(|n| n.is_empty()) { return None; }
    let rest = rest[1..].trim_start_matches(ws).strip_prefix("Signature=")?;
    let end = rest.find(|c: char| c.is_ascii_whitespace()).unwrap_or(rest.len());
    if !rest[end..].trim_start_matches(ws).is_empty() { return None; }
    Some((alg.into(), cr, names, rest[..end].into()))
}
fn rand_day(r: &mut Rng) -> String {
    match r.below(10) {
        0 => r.string(&["0", "1", "9", "a", "-", "+", "é", "\u{661}"], 0, 10),
        1 => format!("{:04}{:02}{:02}", *r.pick(&[1900usize, 2000, 2023, 2024, 2100, 0, 9999]), 2, r.range(27, 31)),
        2 => format!("{:04}{:02}{:02}", 2020 + r.below(10), r.range(0, 14), r.range(0, 33)),
        3 => format!("{:04}{:02}31", 2020 + r.below(10), r.range(1, 12)),
        4 => format!("+{:03}{:02}{:02}", r.below(999), r.range(1, 12), r.range(1, 28)),
        5 => format!("{:04}+{}{:02}", 2020, r.range(1, 9), r.range(1, 28)),
        _ => format!("{:04}{:02}{:02}", 2000 + r.below(40), r.range(1, 12), r.range(1, 28)),
    }
}
fn rand_stamp(r: &mut Rng) -> String {
    let mut s = format!("{:04}{:02}{:02}T{:02}{:02}{:02}Z", *r.pick(&[0usize, 1, 99, 2023, 9999, 1970]), r.below(100), r.below(100), r.below(100), r.below(100), r.below(100));
    for _ in 0..r.below(3) {
        let i = r.below(s.len());
        if !s.is_char_boundary(i) { continue; }
        let ch = *r.pick(&["0", "9", "T", "Z", "t", "z", "+", "-", " ", "é", "/", ":", "", "00", "\u{661}", "\n"]);
        let w = s[i..].chars().next().unwrap().len_utf8();
        let e = if r.chance(3, 4) { i + w } else { i };
        s.replace_range(i..e, ch);
    }
    s
}
fn mutate(r: &mut Rng, s: &str, alphabet: &[&str]) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 2) {
        let i = r.below(cs.len() + 1);
        match r.below(4) {
            0 if i < cs.len() => { cs.remove(i); }
            1 if i < cs.len() => { let x: Vec<char> = r.pick(alphabet).chars().collect(); cs.splice(i..i + 1, x); }
            2 => { let j = r.below(cs.len() + 1); let (a, b) = (i.min(j), i.max(j)); let x: Vec<char> = cs[a..b].to_vec(); if x.len() < 30 { cs.splice(b..b, x); } }
            _ => { let x: Vec<char> = r.pick(alphabet).chars().collect(); cs.splice(i..i, x); }
        }
    }
    cs.into_iter().collect()
}
const AUTH_CH: &[&str] = &["/", ",", ";", " ", "\t", "\n", "\r", "\u{c}", "\u{b}", "\u{a0}", "=", "a", "é", "Signature=", "Credential=", "aws4_request", "SignedHeaders=", ", ", "//", ";;", ""];
fn rand_auth(r: &mut Rng) -> String {
    let sp = |r: &mut Rng, must: bool| { let s = r.string(&[" ", " ", "\t", "\r\n", "\n"], if must { 1 } else { 0 }, 2); s };
    let n = *r.pick(&[1usize, 1, 2, 3, 15, 16, 17, 40]);
    let names: Vec<String> = (0..n).map(|i| format!("{}{}", r.string(&["h", "x-amz-", "=", "é", " ", "/"], 1, 2), i)).collect();
    let acc = r.string(&["A", "K", "I", "a", "-", ",", ";", "=", " ", "é"], 1, 6);
    let day = if r.chance(2, 3) { "20240229".to_string() } else { rand_day(r) };
    let region = r.string(&["us-east-1", "x", "", ","], 0, 1);
    let a = format!("{}{}Credential={}/{}/{}/{}/aws4_request,{}SignedHeaders={},{}Signature={}{}",
        r.pick(&["AWS4-HMAC-SHA256", "x", "AWS4-ECDSA", "é,=", "\u{b}"]), sp(r, true), acc, day, region, r.pick(&["s3", "ec2", "s,3"]), sp(r, false), names.join(";"), sp(r, false),
        r.pick(&["fe5f80f77d5fa3beca038a248ff027d0445342fe2855ddc963176630326f1024", "", "é", "a,b;c=d/e"]), sp(r, false));
    if r.chance(1, 2) { mutate(r, &a, AUTH_CH) } else { a }
}
fn guard<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }

pub async fn c16(c: &mut Ctx) {
    let mut r = c.rng.clone();
    for i in 0..c.n(60000, 2_000_000) {
        if c.done() { return; }
        // timestamps
        let s = rand_stamp(&mut r);
        crate::distinct((1, &s));
        let b = s.as_bytes();
        let want = b.len() == 16 && b[8] == b'T' && b[15] == b'Z' && (0..16).all(|i| i == 8 || i == 15 || b[i].is_ascii_digit());
        c.eval(if want { "timestamp/valid" } else { "timestamp/invalid" });
        if i < 3 { c.sample(|| format!("timestamp {:?} expected {}", s, want)); }
        match guard(|| AmzDate::from_header_str(&s).ok().map(|d| (d.to_iso8601(), d.to_date()))) {
            None => c.fail("timestamp-panic", "parsing a timestamp panics", format!("{:?}", s)),
            Some(got) => {
                let exp = if want { Some((s.clone(), s[..8].to_string())) } else { None };
                c.check(got == exp, "timestamp", "a timestamp is accepted iff it is YYYYMMDDTHHMMSSZ, and formats to the same text", || format!("{:?} parses and formats to {:?}, expected {:?}", s, got, exp));
            }
        }
        // Authorization headers with the credential in them
        let s = rand_auth(&mut r);
        crate::distinct((2, &s));
        let exp = oracle_auth(&s);
        c.eval(if exp.is_some() { "authorization/valid" } else { "authorization/invalid" });
        if i < 3 { c.sample(|| format!("authorization {:?} expected {:?}", s, exp)); }
        match guard(|| AuthorizationV4::from_header_str(&s).ok().map(|a| (a.algorithm.to_string(),
            Cred { access: a.credential.access_key_id.into(), date: a.credential.date.into(), region: a.credential.aws_region.into(), service: a.credential.aws_service.into() },
            a.signed_headers.iter().map(|x| x.to_string()).collect::<Vec<_>>(), a.signature.to_string()))) {
            None => c.fail("authorization-panic", "parsing an Authorization header panics", format!("{:?}", s)),
            Some(got) => c.check(got == exp, "authorization", "an Authorization header is accepted iff it has the documented form, with exactly the substrings in their positions",
                || format!("{:?}\nparses to {:?}\nexpected  {:?}", s, got, exp)),
        }
        // credential dates
        let d = rand_day(&mut r);
        if !d.contains('/') && !d.is_empty() {
            let s = format!("A Credential=k/{}/r/s3/aws4_request,SignedHeaders=h,Signature=s", d);
            let got = guard(|| AuthorizationV4::from_header_str(&s).is_ok());
            let exp = real_day(&d);
            c.eval(if exp { "credential-date/valid" } else { "credential-date/invalid" });
            c.check(got == Some(exp), "credential-date", "a credential date is accepted iff it is a real calendar date YYYYMMDD", || format!("{:?} accepted: {:?}, expected {}", d, got, exp));
        }
        // content hashes
        let base = *r.pick(&["UNSIGNED-PAYLOAD", "STREAMING-AWS4-HMAC-SHA256-PAYLOAD", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "0000000000000000000000000000000000000000000000000000000000000000"]);
        let mut s = base.to_string();
        if r.chance(1, 2) { s = mutate(&mut r, base, &["a", "f", "g", "A", "F", "0", "9", "é", "-", " ", "/", ":", "`", "@", "\u{0}", ""]); }
        if r.chance(1, 10) { s = r.string(&["0", "9", "a", "f"], 62, 66); }
        crate::distinct((3, &s));
        let exp = match s.as_str() {
            "UNSIGNED-PAYLOAD" => Some("unsigned".to_string()),
            "STREAMING-AWS4-HMAC-SHA256-PAYLOAD" => Some("chunks".to_string()),
            x if x.len() == 64 && x.bytes().all(|b| b"0123456789abcdef".contains(&b)) => Some(format!("single {}", x)),
            _ => None,
        };
        c.eval(if exp.is_some() { "content-hash/valid" } else { "content-hash/invalid" });
        let got = guard(|| AmzContentSha256::from_header_str(&s).ok().map(|x| match x {
            AmzContentSha256::UnsignedPayload => "unsigned".to_string(),
            AmzContentSha256::MultipleChunks => "chunks".to_string(),
            AmzContentSha256::SingleChunk { payload_checksum } => format!("single {}", payload_checksum),
        }));
        c.check(got.as_ref() == Some(&exp), "content-hash", "a content hash is accepted iff it is a documented keyword or 64 lower case hex digits", || format!("{:?}: {:?}, expected {:?}", s, got, exp));
        // ranges (also C05)
        if i % 4 == 0 {
            let s = rand_range(&mut r);
            crate::distinct((4, &s));
            let exp = oracle_range(&s);
            c.eval(if exp.is_some() { "range/valid" } else { "range/invalid" });
            let got = guard(|| Range::from_header_str(&s).ok().map(|x| match x { Range::Normal { first, last } => (Some(first), last), Range::Suffix { last } => (None, Some(last)) }));
            c.check(got == Some(exp), "range-syntax", "a range is accepted iff it is one byte range, and keeps its numbers", || format!("{:?}: {:?}, expected {:?}", s, got, exp));
        }
    }
    // malformed credentials in presigned URLs and forms are refused even with the signature computed over them
    let (svc, rec) = service(true);
    for _ in 0..c.n(400, 4000) {
        if c.done() { return; }
        let s = Signer { access: USERS[0].0.into(), secret: USERS[0].1.into(), region: "us-east-1".into(), date: now_date(-3) };
        let good = format!("{}/{}", s.access, s.scope());
        let m = if r.chance(1, 4) { good.clone() } else { mutate(&mut r, &good, &["/", "", "x", "é", "aws4_request", " ", "0", "//"]) };
        let exp = match cred(&m) { Some((c, "")) => Some(c), _ => None };
        // the signature is the one a client with this (possibly odd) credential would compute
        let mut ps = s.clone();
        if let Some(x) = &exp {
            if x.access != s.access || x.date != s.day() || x.service != "s3" { continue; }
            ps.region = x.region.clone();
        }
        let post = r.chance(1, 2);
        let q = if post {
            let bucket = "bkt".to_string();
            let mut fields = sign_form(&ps, &policy(3600, &bucket), &[("key".to_string(), "k".to_string())]);
            for f in fields.iter_mut() { if f.0 == "x-amz-credential" { f.1 = m.clone(); } }
            let f = Form { bucket, boundary: "bound".into(), fields, file: b"data".to_vec(), filename: "f".into(), tail: b"--\r\n".to_vec(), lead: "", ctype_fields: false };
            f.req(vec![f.body()])
        } else {
            let mut query: Vec<(String, String)> = [("X-Amz-Algorithm", "AWS4-HMAC-SHA256"), ("X-Amz-Credential", m.as_str()), ("X-Amz-Date", s.date.as_str()), ("X-Amz-Expires", "600"), ("X-Amz-SignedHeaders", "host")]
                .iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            let canon = ps.canonical("GET", b"/bkt/k", &query, &[("host".to_string(), "h".to_string())], "UNSIGNED-PAYLOAD");
            query.push(("X-Amz-Signature".into(), ps.sign(&ps.sts(&canon))));
            let t: Vec<String> = query.iter().map(|(a, b)| format!("{}={}", enc(a.as_bytes(), false), enc(b.as_bytes(), false))).collect();
            Req::new("GET", &format!("/bkt/k?{}", t.join("&"))).h("host", "h")
        };
        let _ = rec.take_calls();
        let resp = match call(&svc, &q).await { Some(x) => x, None => continue };
        let n = rec.take_calls().len();
        let class = format!("credential-in-{}/{}", if post { "form" } else { "query" }, if exp.is_some() { "valid" } else { "invalid" });
        c.eval(&class);
        c.check((n == 1 && resp.ok()) == exp.is_some() && (n == 0) == exp.is_none(), "credential-place", &format!("a credential is accepted iff well-formed ({})", class),
            || format!("credential {:?}\n{}\n{}", m, q.show(), resp.show()));
    }
}
pub fn rand_range(r: &mut Rng) -> String {
    let num = |r: &mut Rng| match r.below(6) { 0 => r.string(&["0", "1", "9"], 0, 22), 1 => "18446744073709551615".into(), 2 => "18446744073709551616".into(), 3 => format!("00{}", r.below(50)), _ => r.below(2000).to_string() };
    let s = match r.below(5) {
        0 => format!("bytes=-{}", num(r)),
        1 => format!("bytes={}-", num(r)),
        _ => format!("bytes={}-{}", num(r), num(r)),
    };
    if r.chance(1, 3) { mutate(r, &s, &["-", "0", "9", "=", " ", ",", "+", "é", "b", "B", "\u{661}", ";", ""]) } else { s }
}
pub fn oracle_range(s: &str) -> Option<(Option<u64>, Option<u64>)> {
    let v = s.strip_prefix("bytes=")?;
    let num = |x: &str| if !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit()) { x.parse::<u64>().ok() } else { None };
    let i = v.find('-')?;
    let (a, b) = (&v[..i], &v[i + 1..]);
    if a.is_empty() { return Some((None, Some(num(b)?))); }
    let f = num(a)?;
    if b.is_empty() { return Some((Some(f), None)); }
    let l = num(b)?;
    if f > l { None } else { Some((Some(f), Some(l))) }
}
