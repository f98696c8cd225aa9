//! C13: the S3 naming rules, written down independently of the code
use crate::auth::service;
use crate::http::{call, Req};
use crate::rng::Rng;
use crate::sig::enc;
use crate::Ctx;
use s3_server::path::{S3Path, S3PathErrorKind};

#[derive(Debug, PartialEq, Clone)]
enum Want { Root, Bucket(String), Object(String, String), BadUri, BadBucket, LongKey }

/// None: the text of the rule leaves it open (IPv4 look-alikes with leading zeros)
fn bucket_ok(n: &str) -> Option<bool> {
    let b = n.as_bytes();
    if b.len() < 3 || b.len() > 63 { return Some(false); }
    let alnum = |c: u8| (b'a'..=b'z').contains(&c) || (b'0'..=b'9').contains(&c);
    for &c in b { if !alnum(c) && c != b'.' && c != b'-' { return Some(false); } }
    if !alnum(b[0]) || !alnum(b[b.len() - 1]) { return Some(false); }
    if b.len() >= 4 && &b[..4] == b"xn--" { return Some(false); }
    let parts: Vec<&str> = n.split('.').collect();
    if parts.len() == 4 && parts.iter().all(|p| !p.is_empty() && p.bytes().all(|c| c.is_ascii_digit())) {
        let canonical = parts.iter().all(|p| p.len() <= 3 && (p.len() == 1 || !p.starts_with('0')));
        if !canonical {
            // more than three digits without leading zero, or over 255: not an address
            if parts.iter().any(|p| p.len() > 1 && p.starts_with('0')) { return None; }
            return Some(true);
        }
        return Some(!parts.iter().all(|p| p.parse::<u32>().unwrap() <= 255));
    }
    Some(true)
}
fn oracle(path: &str) -> Option<Want> {
    let b = path.as_bytes();
    if b.first() != Some(&b'/') { return Some(Want::BadUri); }
    let rest = &path[1..];
    if rest.is_empty() { return Some(Want::Root); }
    let cut = rest.bytes().position(|c| c == b'/');
    let (name, key) = match cut { None => (rest, ""), Some(i) => (&rest[..i], &rest[i + 1..]) };
    if !bucket_ok(name)? { return Some(Want::BadBucket); }
    if key.is_empty() { return Some(Want::Bucket(name.into())); }
    if key.len() > 1024 { return Some(Want::LongKey); }
    Some(Want::Object(name.into(), key.into()))
}
fn real(path: &str) -> Want {
    match S3Path::try_from_path(path) {
        Ok(S3Path::Root) => Want::Root,
        Ok(S3Path::Bucket { bucket }) => Want::Bucket(bucket.into()),
        Ok(S3Path::Object { bucket, key }) => Want::Object(bucket.into(), key.into()),
        Err(e) => match e.kind() {
            S3PathErrorKind::InvalidPath => Want::BadUri,
            S3PathErrorKind::InvalidBucketName => Want::BadBucket,
            S3PathErrorKind::KeyTooLong => Want::LongKey,
            _ => panic!("unknown kind"),
        },
    }
}
const CH: &[&str] = &["a", "b", "z", "m", "0", "9", "5", "-", ".", "x", "n", "é", "A", "Z", "_", " ", "%", "{", "`", ":", "@", "\u{0}", "+"];
fn name(r: &mut Rng) -> String {
    match r.below(12) {
        0 => { let n = *r.pick(&[0usize, 1, 2, 3, 4, 62, 63, 64, 65, 100]); r.string(&["a", "b", "9"], n, n) }
        1 => { let n = *r.pick(&[3usize, 62, 63, 64]); let mut s = r.string(&["a", "-", ".", "0"], n, n); if r.chance(1, 2) { s.replace_range(0..1, "q"); let l = s.len(); s.replace_range(l - 1..l, "7"); } s }
        2 => (0..4).map(|_| { let v = *r.pick(&["0", "1", "9", "10", "99", "127", "192", "254", "255", "256", "260", "999", "1000", "01", "00", "a", ""]); v.to_string() }).collect::<Vec<_>>().join("."),
        3 => { let n = r.range(2, 6); (0..n).map(|_| r.below(300).to_string()).collect::<Vec<_>>().join(".") }
        4 => { let p = *r.pick(&["xn--", "xn-", "xn", "xn--a", "axn--", "xn--0", "Xn--", "xn-b-", "xn--xn--", "x--n"]); let t = r.string(&["a", "0", "-"], 0, 4); format!("{}{}", p, t) }
        5 => { let s = r.string(&["é", "日"], 1, 32); s }
        6 => { let e = *r.pick(&["-", ".", "A", "_", "a", "0", "é", ""]); let f = *r.pick(&["-", ".", "Z", "z", "9", "", " "]); format!("{}{}{}", e, r.string(&["a", "c", "1", ".", "-"], 1, 8), f) }
        7 => { let mut s = r.string(&["a", "b", "1"], 3, 10); let i = r.below(s.len()); let c = (r.below(128) as u8) as char; s.insert(i, c); s.replace('/', "") }
        8 => { let n = 62 + r.below(3); let mut s = "a".repeat(n - 1); s.push_str(*r.pick(&["a", "é"])); s }
        _ => r.string(CH, 0, 9),
    }
}
fn key(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => { let n = *r.pick(&[1usize, 2, 1022, 1023, 1024, 1025, 1026, 3000]); r.string(&["k"], n, n) }
        2 => { let n = *r.pick(&[341usize, 342]); let e = *r.pick(&["", "a", "ab", "/"]); format!("{}{}", "日".repeat(n), e) }
        3 => { let n = *r.pick(&[512usize, 511, 513]); format!("{}{}", "é".repeat(n), *r.pick(&["", "k"])) }
        4 => r.string(&["/", "//", "a"], 1, 4),
        5 => { let n = r.range(1, 4); r.string(&["a", "/", ".", "..", "%2F", "?", "#", " ", "\u{7f}"], n, n + 4) }
        _ => r.string(&["a", "b", "/", "é", ".", "%", "\\", "+", "&"], 1, 12),
    }
}
fn show(w: &Want) -> String { format!("{:?}", w).chars().take(200).collect() }
pub async fn c13(c: &mut Ctx) {
    let n = c.n(60000, 600000);
    let mut r = c.rng.clone();
    for _ in 0..n {
        if c.done() { break; }
        let path = match r.below(20) {
            0 => r.string(&["/", "a", "", "abc", "*"], 0, 5),
            1 => format!("{}/{}", name(&mut r), key(&mut r)),
            2 => format!("//{}/{}", name(&mut r), key(&mut r)),
            3 => format!("/{}", name(&mut r)),
            4 => format!("/{}/", name(&mut r)),
            _ => format!("/{}/{}", name(&mut r), key(&mut r)),
        };
        let Some(w) = oracle(&path) else { continue };
        crate::distinct(&path);
        let g = std::panic::catch_unwind(|| real(&path));
        c.eval(match w { Want::Root => "root", Want::Bucket(_) => "bucket", Want::Object(..) => "object", Want::BadUri => "InvalidURI", Want::BadBucket => "InvalidBucketName", Want::LongKey => "KeyTooLong" });
        match g {
            Err(_) => c.fail("path-panic", "parsing a path panics", format!("path {:?}", path)),
            Ok(g) => c.check(g == w, "path", "a path is not split or refused as the naming rules say", || format!("path {:?}\nexpected {}\ngot      {}", path, show(&w), show(&g))),
        }
        c.sample(|| format!("{:?} -> {}", path, show(&w)));
    }
    let n = c.n(60000, 600000);
    for _ in 0..n {
        if c.done() { break; }
        let s = name(&mut r);
        let Some(w) = bucket_ok(&s) else { continue };
        crate::distinct((1, &s));
        let g = S3Path::check_bucket_name(&s);
        c.eval(if w { "name accepted" } else { "name refused" });
        c.check(g == w, "bucket-name", "a bucket name is wrongly accepted or refused", || format!("name {:?}: expected {}, got {}", s, w, g));
    }
    // exhaustive: every name of up to 4 characters over the interesting ones
    let al = ["a", "z", "0", "9", ".", "-", "A", "{", "`", "/", ":", "_"];
    for len in 0..5usize {
        let mut idx = vec![0usize; len];
        'o: loop {
            let s: String = idx.iter().map(|&i| al[i]).collect();
            if let Some(w) = bucket_ok(&s) {
                let g = S3Path::check_bucket_name(&s);
                c.eval("short name");
                c.check(g == w, "bucket-name", "a bucket name is wrongly accepted or refused", || format!("name {:?}: expected {}, got {}", s, w, g));
            }
            let mut i = 0;
            loop {
                if i == len { break 'o; }
                idx[i] += 1;
                if idx[i] < al.len() { break; }
                idx[i] = 0;
                i += 1;
            }
        }
    }
    // through the service
    let (svc, rec) = service(false);
    let n = c.n(8000, 60000);
    for _ in 0..n {
        if c.done() { break; }
        let path = match r.below(12) { 0 => format!("/{}", name(&mut r)), 1 => format!("/{}/", name(&mut r)), 2 => "/".to_string(), 3 => format!("//{}", name(&mut r)), _ => format!("/{}/{}", name(&mut r), key(&mut r)) };
        let Some(w) = oracle(&path) else { continue };
        crate::distinct(&path);
        // every spelling of the path decodes to the same text
        let mut target = String::new();
        for ch in path.chars() {
            let mut b = [0; 4];
            let s = ch.encode_utf8(&mut b);
            if s == "/" { if r.chance(1, 30) && !target.is_empty() { target.push_str("%2F") } else { target.push('/') } }
            else if r.chance(1, 20) { for x in s.bytes() { target.push_str(&if r.chance(1, 2) { format!("%{:02X}", x) } else { format!("%{:02x}", x) }); } }
            else { target.push_str(&enc(s.as_bytes(), true)); }
        }
        let q = Req::new("GET", &target);
        let Some(p) = call(&svc, &q).await else { continue };
        let calls = rec.take_calls();
        c.eval("through the service");
        let detail = || format!("{}\npath {:?}\nexpected {}\nanswer {}\ncalls {:?}", q.show(), path, show(&w), p.show(), calls);
        if p.panicked || p.svc_err.is_some() { c.fail("service-panic", "a path makes the server fail", detail()); continue; }
        let ok = match &w {
            Want::BadUri => p.code().as_deref() == Some("InvalidURI") && p.status == 400 && calls.is_empty(),
            Want::BadBucket => p.code().as_deref() == Some("InvalidBucketName") && p.status == 400 && calls.is_empty(),
            Want::LongKey => p.code().as_deref() == Some("KeyTooLongError") && p.status == 400 && calls.is_empty(),
            Want::Root => calls.len() == 1 && calls[0].op == "ListBuckets",
            Want::Bucket(b) => calls.len() == 1 && calls[0].op == "ListObjects" && calls[0].input.contains(&format!("bucket: {:?},", b)),
            Want::Object(b, k) => calls.len() == 1 && calls[0].op == "GetObject" && calls[0].input.contains(&format!("bucket: {:?},", b)) && calls[0].input.contains(&format!(" key: {:?},", k)),
        };
        c.check(ok, "service-path", "a request path is not handled as the naming rules say", detail);
    }
    // paths which are not text
    for bad in ["/abc/%ff", "/abc/%c3", "/%80abc", "/abc/k%e6%97"] {
        let q = Req::new("GET", bad);
        if let Some(p) = call(&svc, &q).await {
            let calls = rec.take_calls();
            c.eval("not text");
            c.check(!p.panicked && calls.is_empty() && p.code().as_deref() == Some("InvalidURI"), "service-path", "a path which is not UTF-8 is not refused as InvalidURI", || format!("{}{}", q.show(), p.show()));
        }
    }
}
