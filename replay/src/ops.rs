//! C12 (routing), C14 (errors), C18 (fields in and out)
use crate::auth::{now_date, plans, policy, presign, service, sign_form, sign_header, Form, Mode, USERS};
use crate::fsx::World;
use crate::http::{call, Frame, Req, Resp};
use crate::rec::{norm, Inp, Rec, OPS};
use crate::rng::Rng;
use crate::sig::{enc, Signer};
use crate::xml;
use crate::Ctx;
use s3_server::dto::*;
use s3_server::errors::{S3Error, S3ErrorCode, S3StorageError, S3StorageResult};
use s3_server::S3Service;
use std::collections::{BTreeMap, HashMap};

/// error codes and the status S3 documents for them (500 where it documents none)
pub const CODES: &[(&str, &[u16])] = &[
    ("AccessDenied", &[403]), ("AccountProblem", &[403]), ("AllAccessDisabled", &[403]), ("AmbiguousGrantByEmailAddress", &[400]),
    ("AuthorizationHeaderMalformed", &[400]), ("BadDigest", &[400]), ("BucketAlreadyExists", &[409]), ("BucketAlreadyOwnedByYou", &[409]),
    ("BucketNotEmpty", &[409]), ("CredentialsNotSupported", &[400]), ("CrossLocationLoggingProhibited", &[403]), ("EntityTooSmall", &[400]),
    ("EntityTooLarge", &[400]), ("ExpiredToken", &[400]), ("IllegalLocationConstraintException", &[400]), ("IllegalVersioningConfigurationException", &[400]),
    ("IncompleteBody", &[400]), ("IncorrectNumberOfFilesInPostRequest", &[400]), ("InlineDataTooLarge", &[400]), ("InternalError", &[500]),
    ("InvalidAccessKeyId", &[403]), ("InvalidAddressingHeader", &[500]), ("InvalidArgument", &[400]), ("InvalidBucketName", &[400]),
    ("InvalidBucketState", &[409]), ("InvalidDigest", &[400]), ("InvalidEncryptionAlgorithmError", &[400]), ("InvalidLocationConstraint", &[400]),
    ("InvalidObjectState", &[403]), ("InvalidPart", &[400]), ("InvalidPartOrder", &[400]), ("InvalidPayer", &[403]),
    ("InvalidPolicyDocument", &[400]), ("InvalidRange", &[416]), ("InvalidRequest", &[400]), ("InvalidSecurity", &[403]),
    ("InvalidSOAPRequest", &[400]), ("InvalidStorageClass", &[400]), ("InvalidTargetBucketForLogging", &[400]), ("InvalidToken", &[400]),
    ("InvalidURI", &[400]), ("KeyTooLongError", &[400]), ("MalformedACLError", &[400]), ("MalformedPOSTRequest", &[400]),
    ("MalformedXML", &[400]), ("MaxMessageLengthExceeded", &[400]), ("MaxPostPreDataLengthExceededError", &[400]), ("MetadataTooLarge", &[400]),
    ("MethodNotAllowed", &[405]), ("MissingAttachment", &[500]), ("MissingContentLength", &[411]), ("MissingRequestBodyError", &[400]),
    ("MissingSecurityElement", &[400]), ("MissingSecurityHeader", &[400]), ("NoLoggingStatusForKey", &[400]), ("NoSuchBucket", &[404]),
    ("NoSuchBucketPolicy", &[404]), ("NoSuchKey", &[404]), ("NoSuchLifecycleConfiguration", &[404]), ("NoSuchUpload", &[404]),
    ("NoSuchVersion", &[404]), ("NotImplemented", &[501]), ("NotSignedUp", &[403]), ("NotSupported", &[500]),
    ("ObjectNotInActiveTierError", &[200, 403]), ("OperationAborted", &[409]), ("PermanentRedirect", &[301]), ("PreconditionFailed", &[412]),
    ("Redirect", &[307]), ("RestoreAlreadyInProgress", &[409]), ("RequestIsNotMultiPartContent", &[400]), ("RequestTimeout", &[400]),
    ("RequestTimeTooSkewed", &[403]), ("RequestTorrentOfBucketError", &[400]), ("ServerSideEncryptionConfigurationNotFoundError", &[400]),
    ("ServiceUnavailable", &[503]), ("SignatureDoesNotMatch", &[403]), ("SlowDown", &[503]), ("TemporaryRedirect", &[307]),
    ("TokenRefreshRequired", &[400]), ("TooManyBuckets", &[400]), ("UnexpectedContent", &[400]), ("UnresolvableGrantByEmailAddress", &[400]),
    ("UserKeyMustBeSpecified", &[400]), ("XAmzContentSHA256Mismatch", &[400]),
];
const UNSUPPORTED: &[&str] = &[
    "accelerate", "acl", "analytics", "attributes", "cors", "encryption", "intelligent-tiering", "inventory", "legal-hold", "lifecycle", "logging",
    "metrics", "notification", "object-lock", "ownershipControls", "policy", "policyStatus", "publicAccessBlock", "replication", "requestPayment",
    "restore", "retention", "select", "tagging", "torrent", "versionId", "versioning", "versions", "website",
];
/// an error answer must be a well formed S3 error document of a known code with its status
pub fn error_shape(p: &Resp) -> Result<String, String> {
    if p.panicked { return Err("the server panicked".into()); }
    if let Some(e) = &p.svc_err { return Err(format!("no answer: {}", e)); }
    let d = xml::parse(&p.body).map_err(|e| format!("the error body is not XML: {}", e))?;
    if d.name != "Error" { return Err(format!("the error document is a {}", d.name)); }
    let code = d.t("Code").ok_or("no Code")?;
    let (_, st) = CODES.iter().find(|c| c.0 == code).ok_or(format!("unknown code {}", code))?;
    if !st.contains(&p.status) { return Err(format!("code {} with status {}", code, p.status)); }
    let ct = p.get("content-type").unwrap_or_default();
    if !ct.contains("xml") { return Err(format!("content type {}", ct)); }
    Ok(code)
}
const XML_PARTS: &str = "<CompleteMultipartUpload><Part><ETag>\"a\"</ETag><PartNumber>1</PartNumber></Part></CompleteMultipartUpload>";
const XML_DEL: &str = "<Delete><Object><Key>k1</Key></Object></Delete>";
const XML_CFG: &str = "<CreateBucketConfiguration><LocationConstraint>eu</LocationConstraint></CreateBucketConfiguration>";

#[derive(Debug, Clone, PartialEq)]
enum Want { Not(&'static str), Op(&'static str), Err, Open }

/// the S3 API: which operation a request names
fn route(method: &str, kind: u8, q: &dyn Fn(&str) -> Option<String>, copy: bool) -> Want {
    let has = |n: &str| q(n).is_some();
    if UNSUPPORTED.iter().any(|n| has(n)) { return Want::Err; }
    let sel = ["uploads", "uploadId", "delete", "location", "list-type", "partNumber"].iter().filter(|n| has(n)).count();
    match (kind, method) {
        (0, "GET") => if sel == 0 { Want::Op("ListBuckets") } else { Want::Open },
        (0, _) => Want::Err,
        (1, "GET") => {
            if has("uploads") || has("uploadId") { return Want::Err; }
            if sel > 1 || has("delete") || has("partNumber") { return Want::Open; }
            if has("location") { return Want::Op("GetBucketLocation"); }
            match q("list-type") { None => Want::Op("ListObjects"), Some(v) if v == "2" => Want::Op("ListObjectsV2"), _ => Want::Not("ListObjectsV2") }
        }
        (1, "HEAD") | (1, "PUT") | (1, "DELETE") => {
            if sel > 0 { return Want::Open; }
            Want::Op(match method { "HEAD" => "HeadBucket", "PUT" => "CreateBucket", _ => "DeleteBucket" })
        }
        (1, "POST") => if has("delete") { if sel == 1 { Want::Op("DeleteObjects") } else { Want::Open } } else { Want::Err },
        (1, _) => Want::Err,
        (2, "GET") | (2, "HEAD") | (2, "DELETE") => {
            if has("uploads") || has("uploadId") { return Want::Err; }
            if sel > 0 { return Want::Open; }
            Want::Op(match method { "GET" => "GetObject", "HEAD" => "HeadObject", _ => "DeleteObject" })
        }
        (2, "PUT") => {
            if has("uploads") { return Want::Err; }
            if has("uploadId") && copy { return Want::Err; }
            if has("uploadId") && has("partNumber") { return if sel == 2 { Want::Op("UploadPart") } else { Want::Open }; }
            if sel > 0 { return Want::Open; }
            if copy { Want::Op("CopyObject") } else { Want::Op("PutObject") }
        }
        (2, "POST") => {
            if has("uploads") && has("uploadId") { return Want::Open; }
            if has("uploads") { return if sel == 1 { Want::Op("CreateMultipartUpload") } else { Want::Open }; }
            if has("uploadId") { return if sel == 1 { Want::Op("CompleteMultipartUpload") } else { Want::Open }; }
            Want::Err
        }
        _ => Want::Err,
    }
}
const METHODS: &[&str] = &["GET", "PUT", "POST", "DELETE", "HEAD", "GET", "PUT", "POST", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "CONNECT", "get", "FOO", "PROPFIND"];
const QNAMES: &[&str] = &["uploads", "uploadId", "partNumber", "delete", "location", "list-type"];
const JUNK: &[&str] = &["x-id", "prefix", "marker", "foo", "Uploads", "uploadid", "PartNumber", "partnumber", "delet", "deletes", "Delete", "locations", "list-typ", "ACL", "acls", "tag", "response-content-type", "versionid", "", "X-Amz-Foo", "upload", "listtype"];

pub async fn c12(c: &mut Ctx) {
    let (svc, rec) = service(false);
    let mut r = c.rng.clone();
    let n = c.n(30000, 300000);
    for _ in 0..n {
        if c.done() { break; }
        let kind = *r.pick(&[0u8, 1, 1, 2, 2, 2]);
        let path = match kind { 0 => "/".to_string(), 1 => if r.chance(1, 3) { "/bkt/".into() } else { "/bkt".into() }, _ => format!("/bkt/{}", enc(crate::auth::rand_key(&mut r).as_bytes(), true)) };
        let m = *r.pick(METHODS);
        let mut q: Vec<(String, Option<String>)> = vec![];
        let sel = match r.below(6) { 0 | 1 => 0, 2 | 3 => 1, 4 => 2, _ => 3 };
        for _ in 0..sel {
            let nme = *r.pick(QNAMES);
            let v = match nme { "partNumber" => r.range(1, 20).to_string(), "uploadId" => "id-7".into(), "list-type" => r.pick(&["2", "2", "1", "", "22", "02"]).to_string(), _ => r.pick(&["", "", "1"]).to_string() };
            if !q.iter().any(|x| x.0 == nme) { q.push((nme.into(), if v.is_empty() && r.chance(1, 2) { None } else { Some(v) })); }
        }
        // the common pair, more often
        if kind == 2 && r.chance(1, 8) && q.is_empty() { q.push(("uploadId".into(), Some("u-1".into()))); q.push(("partNumber".into(), Some("2".into()))); }
        if r.chance(1, 6) { let nme = *r.pick(UNSUPPORTED); q.push((nme.into(), if r.chance(1, 2) { None } else { Some(r.pick(&["", "v", "null", "3"]).to_string()) })); }
        for _ in 0..r.below(3) { let nme = *r.pick(JUNK); if !q.iter().any(|x| x.0 == nme) { q.push((nme.into(), if r.chance(1, 2) { None } else { Some("zz".into()) })); } }
        let len = q.len();
        for i in (1..len).rev() { let j = r.below(i + 1); q.swap(i, j); }
        let qs: String = q.iter().map(|(a, b)| match b { None => enc(a.as_bytes(), false), Some(v) => format!("{}={}", enc(a.as_bytes(), false), enc(v.as_bytes(), false)) }).collect::<Vec<_>>().join("&");
        let target = if q.is_empty() && r.chance(9, 10) { path.clone() } else { format!("{}?{}", path, qs) };
        let copy = kind == 2 && r.chance(1, 4);
        let get = |n: &str| q.iter().find(|x| x.0 == n).map(|x| x.1.clone().unwrap_or_default());
        let w = route(m, kind, &get, copy);
        let mut req = Req::new(m, &target);
        if copy { req = req.h("x-amz-copy-source", *r.pick(&["srcb/srck", "/srcb/a/b", "srcb/a%20b"])); }
        if !copy && r.chance(1, 8) { req = req.h(*r.pick(&["x-amz-copy-source-range", "x-amz-copy-source-if-match", "copy-source", "x-amz-copysource"]), "srcb/srck"); }
        let body: &[u8] = match &w {
            Want::Op("CreateBucket") => if r.chance(1, 2) { XML_CFG.as_bytes() } else { b"" },
            Want::Op("DeleteObjects") => XML_DEL.as_bytes(),
            Want::Op("CompleteMultipartUpload") => XML_PARTS.as_bytes(),
            Want::Op("PutObject") | Want::Op("UploadPart") => b"data",
            Want::Not(_) | Want::Open | Want::Err => *r.pick(&[b"" as &[u8], b"x", XML_DEL.as_bytes(), XML_PARTS.as_bytes(), XML_CFG.as_bytes()]),
            _ => b"",
        };
        if !body.is_empty() { req = req.body(body); }
        let Some(p) = call(&svc, &req).await else { continue };
        let calls = rec.take_calls();
        c.eval(match &w { Want::Op(o) => o, Want::Err => "no operation", Want::Not(_) | Want::Open => "unspecified" });
        c.sample(|| format!("{} {} copy {} -> {:?}", m, target, copy, w));
        let detail = || format!("{}\nexpected {:?}\ncalls {:?}\n{}", req.show(), w, calls, p.show());
        if p.panicked || p.svc_err.is_some() { c.fail("route-panic", "a request makes the server fail", detail()); continue; }
        if calls.len() > 1 { c.fail("route-many", "one request runs several storage operations", detail()); continue; }
        match &w {
            Want::Op(o) => {
                let good = calls.len() == 1 && calls[0].op == *o && p.ok();
                c.check(good, "route", "a request does not run the operation it names", detail);
            }
            Want::Err => {
                let mut why = String::new();
                let good = calls.is_empty() && match error_shape(&p) { Ok(_) => true, Err(e) => { why = e; false } };
                c.check(good, "route-unsupported", "a request which no supported operation matches is not answered with an error alone", || format!("{}\n{}", why, detail()));
            }
            Want::Not(o) if calls.iter().any(|x| x.op == *o) => c.fail("route", "a request runs an operation it does not name", detail()),
            Want::Not(_) | Want::Open => {
                if calls.is_empty() { if let Err(e) = error_shape(&p) { c.fail("route-error-shape", "a request which runs nothing gets no S3 error", format!("{}\n{}", e, detail())); } }
            }
        }
    }
    // forms
    let (asvc, arec) = service(true);
    let s = Signer { access: USERS[0].0.into(), secret: USERS[0].1.into(), region: "us-east-1".into(), date: now_date(0) };
    for i in 0..c.n(60, 600) {
        if c.done() { break; }
        let pol = policy(600, "bkt");
        let fields = sign_form(&s, &pol, &[("key".to_string(), format!("k{}", i))]);
        let f = Form { bucket: "bkt".into(), boundary: "xxBoundary".into(), fields, file: b"file data".to_vec(), filename: "f.txt".into(), tail: b"--\r\n".to_vec(), lead: "", ctype_fields: false };
        let mut q = f.req(vec![f.body()]);
        let t = *r.pick(&["/bkt", "/bkt/", "/bkt/obj", "/", "/bkt?acl", "/bkt?tagging=1", "/bkt/obj?uploads", "/bkt/obj?uploadId=1"]);
        q.target = t.into();
        let Some(p) = call(&asvc, &q).await else { continue };
        let calls = arec.take_calls();
        c.eval("form");
        let put = t == "/bkt" || t == "/bkt/";
        let good = if put { calls.len() == 1 && calls[0].op == "PutObject" && p.ok() } else { calls.is_empty() && error_shape(&p).is_ok() };
        c.check(good, "route-form", "a form is not routed by its path", || format!("{}\ncalls {:?}\n{}", q.show(), calls, p.show()));
    }
    // nothing makes the server panic
    let w = World::new(c);
    let fs = &w.svc;
    let mut world_calls = 0u32;
    for b in ["bkt", "src"] { let _ = call(fs, &Req::new("PUT", &format!("/{}", b))).await; }
    for (k, d) in [("k", "0123456789"), ("a/b", ""), ("dir/x", "xyz")] { let _ = call(fs, &Req::new("PUT", &format!("/bkt/{}", k)).body(d.as_bytes())).await; }
    let n = c.n(20000, 200000);
    for i in 0..n {
        if c.done() { break; }
        let req = odd(&mut r);
        for which in 0..3 {
            let sv: &S3Service = match which { 0 => &svc, 1 => &asvc, _ => fs };
            if which == 2 && (i % 4 != 0) { continue; }
            let Some(p) = call(sv, &req).await else { continue };
            let mut nc = rec.take_calls();
            nc.extend(arec.take_calls());
            c.eval("odd request");
            world_calls += 1;
            let detail = || format!("service {}\n{}\ncalls {:?}\n{}", ["recording, no auth", "recording, auth", "file system"][which], req.show(), nc, p.show());
            if p.panicked || p.svc_err.is_some() { c.fail("odd-panic", "a request makes the server fail", detail()); }
            else if nc.len() > 1 { c.fail("route-many", "one request runs several storage operations", detail()); }
            else if p.status >= 400 && p.body_err.is_none() { if let Err(e) = error_shape(&p) { c.fail("error-shape", "an error answer is not an S3 error document", format!("{}\n{}", e, detail())); } }
        }
    }
    let _ = world_calls;
    w.drop_files();
}
/// a request which is odd in some way
fn odd(r: &mut Rng) -> Req {
    let s = Signer { access: USERS[0].0.into(), secret: USERS[0].1.into(), region: "us-east-1".into(), date: now_date(0) };
    let mut req;
    match r.below(10) {
        0 | 1 | 2 => {
            // a signed request with some of its parts disturbed
            let ps = plans(r);
            let p = r.pick(&ps).clone();
            let mode = *r.pick(&[Mode::Hash, Mode::Unsigned, Mode::Streaming]);
            let sg = sign_header(r, &p, mode, &s);
            req = if r.chance(1, 3) { let e = r.pick(&["10", "604800", "0", "-1", "", "99999999999999999999", "4294967296", "x"]).to_string(); presign(r, &p, &s, &e).req(r) } else { sg.req(r) };
        }
        3 => {
            let pol = policy(60, "bkt");
            let fields = sign_form(&s, &pol, &[("key".to_string(), "k".to_string())]);
            let f = Form { bucket: "bkt".into(), boundary: "B".into(), fields, file: b"\r\n--".to_vec(), filename: "f".into(), tail: b"--\r\n".to_vec(), lead: "", ctype_fields: false };
            let b = f.body();
            let fr = r.fragment(&b);
            req = f.req(fr);
        }
        _ => {
            let m = *r.pick(METHODS);
            let path = r.pick(&["/", "/bkt", "/bkt/", "/bkt/k", "/bkt/a/b", "/bkt/dir", "/bkt/dir/", "/bkt//", "/bkt/%2e%2e/x", "/bkt/%00", "*", "//", "/a", "/BKT/k", "/bkt/%ff", "/bkt/%", "/bkt/%zz", "/src/", "/missing", "/missing/k", "/bkt/.", "/bkt/..", "/bkt/k/..", "http://h/bkt/k", "/bkt/\u{1f}"]).to_string();
            let q = r.pick(&["", "", "", "?", "?acl", "?uploads", "?uploadId=1", "?uploadId=1&partNumber=1", "?partNumber=1&uploadId=", "?partNumber=x&uploadId=1", "?partNumber=-1&uploadId=9", "?partNumber=99999999999999999999&uploadId=9", "?delete", "?location", "?list-type=2", "?list-type=2&max-keys=x", "?max-keys=-1", "?max-keys=0", "?max-keys=9999999999999999999999", "?prefix=%ff", "?prefix=%", "?&&==&", "?a=b=c", "?X-Amz-Signature=1", "?X-Amz-Signature=1&X-Amz-Expires=5", "?list-type=2&fetch-owner=maybe", "?list-type=2&start-after=a&continuation-token=b", "?versionId=1", "?prefix=..%2f", "?%ff%fe", "?uploadId=..%2F..&partNumber=1"]);
            req = Req::new(m, &format!("{}{}", path, q));
            if r.chance(1, 2) { let b = r.pick(&[&b""[..], b"x", b"<", b"<a", b"<Delete/>", b"<Delete><Object/></Delete>", b"<Delete><Object><Key/></Object></Delete>", b"\xff\xfe", b"<?xml version=\"1.0\"?><!DOCTYPE a [<!ENTITY b \"c\">]><Delete>&b;</Delete>", b"<CompleteMultipartUpload/>", b"<CompleteMultipartUpload><Part><PartNumber>x</PartNumber></Part></CompleteMultipartUpload>", b"<CompleteMultipartUpload><Part/></CompleteMultipartUpload>", XML_PARTS.as_bytes(), XML_DEL.as_bytes(), b"<CreateBucketConfiguration/>"]).to_vec(); req = req.frames(r.fragment(&b)); }
        }
    }
    for _ in 0..r.below(4) {
        match r.below(9) {
            0 => { // an unusual value for a header the server reads
                let hn = *r.pick(&["authorization", "x-amz-date", "x-amz-content-sha256", "content-type", "range", "x-amz-copy-source", "content-length", "host", "x-amz-meta-a", "x-amz-meta-", "x-amz-meta-\u{7a}", "x-amz-bypass-governance-retention", "x-amz-bucket-object-lock-enabled", "content-md5", "expires", "x-amz-mfa"]);
                let hv: &[u8] = *r.pick(&[&b""[..], b" ", b"\xff", b"\xc3\xa9", b"bytes=0-", b"bytes=-", b"bytes=5-2", b"bytes=-0", b"bytes=0-18446744073709551615", b"bytes=18446744073709551616-", b"bytes=1-2,3-4", b"bytes=99-", b"bytes=-99", b"multipart/form-data", b"multipart/form-data; boundary=", b"multipart/form-data; boundary=\"\"", b"multipart/form-data; boundary=x", b"a/b;", b"/", b"AWS4-HMAC-SHA256", b"AWS4-HMAC-SHA256 Credential=//20200101///aws4_request, SignedHeaders=, Signature=", b"AWS4-HMAC-SHA256 Credential=a/20200101/r/s3/aws4_request, SignedHeaders=host;zzz, Signature=0", b"AWS4-HMAC-SHA256 Credential=a/20209999/r/s3/aws4_request, SignedHeaders=host, Signature=0", b"20200101T000000Z", b"20209999T999999Z", b"\t", b"a", b"/", b"//", b"a/", b"/b", b"b/../../x", b"src/", b"%", b"src/%ff", b"src/k?versionId=3", b"arn:aws:s3:r:1:accesspoint/x/object/k", b"-1", b"3", b"99999999999999999999", b"true", b"false", b"STREAMING-AWS4-HMAC-SHA256-PAYLOAD", b"UNSIGNED-PAYLOAD", b"e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", b"\"", b"Thu, 01 Jan 1970 00:00:00 GMT"]);
                if r.chance(1, 2) { req.headers.retain(|h| h.0 != hn); }
                req.headers.push((hn.into(), hv.to_vec()));
            }
            1 => { if !req.headers.is_empty() { let i = r.below(req.headers.len()); req.headers.remove(i); } }
            2 => { if !req.headers.is_empty() { let i = r.below(req.headers.len()); let h = req.headers[i].clone(); req.headers.push(h); } }
            3 => { if !req.headers.is_empty() { let i = r.below(req.headers.len()); let v = &mut req.headers[i].1; if !v.is_empty() { let j = r.below(v.len()); match r.below(3) { 0 => { v.truncate(j) } 1 => { v[j] = *b"/;,= \tAz0\x80\xff%".get(r.below(12)).unwrap_or(&b'x') } _ => { v.insert(j, b' ') } } } } }
            4 => { req.method = r.pick(METHODS).to_string(); }
            5 => { req.body.push(Frame::Err); }
            6 => { if !req.body.is_empty() { let i = r.below(req.body.len()); if r.chance(1, 2) { req.body.remove(i); } else if let Frame::Data(d) = &mut req.body[i] { if !d.is_empty() { let j = r.below(d.len()); d[j] = r.next() as u8; } } } }
            7 => { // the query of the target
                if let Some(i) = req.target.find('?') { let t = req.target[i + 1..].to_string(); let mut ps: Vec<String> = t.split('&').map(|x| x.to_string()).collect(); let j = r.below(ps.len()); match r.below(3) { 0 => { ps.remove(j); } 1 => { let x = ps[j].clone(); ps.push(x); } _ => { let e = r.below(ps[j].len() + 1); if ps[j].is_char_boundary(e) { ps[j].truncate(e); } } } req.target = format!("{}?{}", &req.target[..i], ps.join("&")); }
            }
            _ => { let hn = *r.pick(&["x-amz-meta-x", "accept", "if-match", "x-amz-acl", "cache-control", "x-y"]); req.headers.push((hn.into(), r.pick(&[&b"1"[..], b"\x80", b"a\tb", b"=?UTF-8?"]).to_vec())); }
        }
    }
    req
}

// ---------------------------------------------------------------- C14
fn message(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => "<Code>Injected</Code></Message></Error>".into(),
        2 => r.string(&["<", ">", "&", "\"", "'", "]]>", "<![CDATA[", "&amp;", "&#13;", "<!--", "-->", "a", " "], 1, 12),
        3 => r.string(&["é", "日", "\u{1f600}", "\u{85}", "\u{a0}", "x"], 1, 10),
        4 => format!("{}\n\t{}", r.string(&["a", " "], 0, 4), r.string(&["b", " "], 0, 4)),
        _ => r.string(&["a", "b", " ", "The", "key", "."], 0, 12),
    }
}
fn op_request(op: &str) -> Req {
    match op {
        "CompleteMultipartUpload" => Req::new("POST", "/bkt/k?uploadId=1").body(XML_PARTS.as_bytes()),
        "CopyObject" => Req::new("PUT", "/bkt/k").h("x-amz-copy-source", "src/k"),
        "CreateMultipartUpload" => Req::new("POST", "/bkt/k?uploads"),
        "CreateBucket" => Req::new("PUT", "/bkt"),
        "DeleteBucket" => Req::new("DELETE", "/bkt"),
        "DeleteObject" => Req::new("DELETE", "/bkt/k"),
        "DeleteObjects" => Req::new("POST", "/bkt?delete").body(XML_DEL.as_bytes()),
        "GetBucketLocation" => Req::new("GET", "/bkt?location"),
        "GetObject" => Req::new("GET", "/bkt/k"),
        "HeadBucket" => Req::new("HEAD", "/bkt"),
        "HeadObject" => Req::new("HEAD", "/bkt/k"),
        "ListBuckets" => Req::new("GET", "/"),
        "ListObjects" => Req::new("GET", "/bkt"),
        "ListObjectsV2" => Req::new("GET", "/bkt?list-type=2"),
        "PutObject" => Req::new("PUT", "/bkt/k").body(b"x"),
        "UploadPart" => Req::new("PUT", "/bkt/k?partNumber=1&uploadId=2").body(b"x"),
        _ => unreachable!(),
    }
}
fn answer_err(rec: &Rec, op: &'static str, e: S3Error) {
    macro_rules! t { ($($n:literal $o:ty, $e:ty;)*) => { match op { $($n => rec.answer::<$o, $e>($n, Err(S3StorageError::Other(e))),)* _ => unreachable!() } } }
    t! {
        "CompleteMultipartUpload" CompleteMultipartUploadOutput, CompleteMultipartUploadError;
        "CopyObject" CopyObjectOutput, CopyObjectError;
        "CreateMultipartUpload" CreateMultipartUploadOutput, CreateMultipartUploadError;
        "CreateBucket" CreateBucketOutput, CreateBucketError;
        "DeleteBucket" DeleteBucketOutput, DeleteBucketError;
        "DeleteObject" DeleteObjectOutput, DeleteObjectError;
        "DeleteObjects" DeleteObjectsOutput, DeleteObjectsError;
        "GetBucketLocation" GetBucketLocationOutput, GetBucketLocationError;
        "GetObject" GetObjectOutput, GetObjectError;
        "HeadBucket" HeadBucketOutput, HeadBucketError;
        "HeadObject" HeadObjectOutput, HeadObjectError;
        "ListBuckets" ListBucketsOutput, ListBucketsError;
        "ListObjects" ListObjectsOutput, ListObjectsError;
        "ListObjectsV2" ListObjectsV2Output, ListObjectsV2Error;
        "PutObject" PutObjectOutput, PutObjectError;
        "UploadPart" UploadPartOutput, UploadPartError;
    }
}
async fn expect_error(c: &mut Ctx, svc: &S3Service, rec: &Rec, req: &Req, code: &str, msg: Option<&str>, class: &str) {
    let Some(p) = call(svc, req).await else { return };
    rec.take_calls();
    c.eval(class);
    let got = error_shape(&p);
    let detail = || format!("{}\nexpected code {} message {:?}\nfound {:?}\n{}", req.show(), code, msg, got, p.show());
    match &got {
        Err(_) => c.fail("error-shape", "an error does not become the S3 error response of its code", detail()),
        Ok(k) if k != code => c.fail("error-code", "an error is answered with another code", detail()),
        Ok(_) => {
            if let Some(m) = msg {
                let d = xml::parse(&p.body).unwrap();
                let t = d.t("Message");
                // an empty message may be left out
                let same = t.as_deref() == Some(m) || (m.is_empty() && t.is_none());
                c.check(same && d.kids.iter().all(|k| k.kids.is_empty()) && d.kids.iter().filter(|k| k.name == "Code").count() == 1, "error-message", "the message of an error is changed or not escaped", detail);
            }
        }
    }
}
pub async fn c14(c: &mut Ctx) {
    let (svc, rec) = service(false);
    let mut r = c.rng.clone();
    for round in 0..c.n(3, 25) {
        for (name, _) in CODES {
            if c.done() { break; }
            let op = if round == 0 { "GetObject" } else { *r.pick(OPS) };
            let parsed = S3ErrorCode::parse_from_str(name);
            let code = match parsed { Ok(k) => k, Err(_) => {
                // the table of names in the code lacks a few; those codes are reached by Debug name only
                if !["InvalidURI"].contains(name) { continue }
                c.fail("error-name", "the name of an error code is not known", name.to_string());
                continue
            } };
            c.check(format!("{:?}", code) == *name && code.as_static_str() == *name, "error-name", "an error code has another name", || format!("{} {:?} {}", name, code, code.as_static_str()));
            let m = message(&mut r);
            answer_err(&rec, op, S3Error::new(code, m.clone()));
            let q = op_request(op);
            expect_error(c, &svc, &rec, &q, name, Some(&m), "code kept").await;
        }
    }
    // every variant that the crate lets one name
    {
        let all: &[(S3ErrorCode, &str)] = &[
            (S3ErrorCode::TemporaryRedirect, "TemporaryRedirect"), (S3ErrorCode::MissingRequestBodyError, "MissingRequestBodyError"),
            (S3ErrorCode::InvalidEncryptionAlgorithmError, "InvalidEncryptionAlgorithmError"), (S3ErrorCode::InvalidSOAPRequest, "InvalidSOAPRequest"),
            (S3ErrorCode::XAmzContentSHA256Mismatch, "XAmzContentSHA256Mismatch"), (S3ErrorCode::InternalError, "InternalError"),
            (S3ErrorCode::NotSupported, "NotSupported"), (S3ErrorCode::SlowDown, "SlowDown"),
        ];
        for (code, name) in all {
            for op in OPS {
                let m = message(&mut r);
                answer_err(&rec, op, S3Error::new(*code, m.clone()));
                expect_error(c, &svc, &rec, &op_request(op), name, Some(&m), "code kept").await;
            }
        }
    }
    // the error kinds of the operations
    for _ in 0..c.n(10, 100) {
        if c.done() { break; }
        let m = message(&mut r);
        macro_rules! kind { ($op:literal, $o:ty, $e:expr, $code:literal) => {{
            rec.answer::<$o, _>($op, Err(S3StorageError::Operation($e)));
            expect_error(c, &svc, &rec, &op_request($op), $code, Some(&m), "operation error").await;
        }} }
        kind!("CreateBucket", CreateBucketOutput, CreateBucketError::BucketAlreadyExists(m.clone()), "BucketAlreadyExists");
        kind!("CreateBucket", CreateBucketOutput, CreateBucketError::BucketAlreadyOwnedByYou(m.clone()), "BucketAlreadyOwnedByYou");
        kind!("GetObject", GetObjectOutput, GetObjectError::NoSuchKey(m.clone()), "NoSuchKey");
        kind!("GetObject", GetObjectOutput, GetObjectError::InvalidObjectState(m.clone()), "InvalidObjectState");
        kind!("HeadObject", HeadObjectOutput, HeadObjectError::NoSuchKey(m.clone()), "NoSuchKey");
        kind!("HeadBucket", HeadBucketOutput, HeadBucketError::NoSuchBucket(m.clone()), "NoSuchBucket");
        kind!("ListObjects", ListObjectsOutput, ListObjectsError::NoSuchBucket(m.clone()), "NoSuchBucket");
        kind!("ListObjectsV2", ListObjectsV2Output, ListObjectsV2Error::NoSuchBucket(m.clone()), "NoSuchBucket");
        kind!("CopyObject", CopyObjectOutput, CopyObjectError::ObjectNotInActiveTierError(m.clone()), "ObjectNotInActiveTierError");
        // an output which cannot be sent is an internal error
        rec.answer::<PutObjectOutput, PutObjectError>("PutObject", Ok(PutObjectOutput { e_tag: Some("a\nb".into()), ..Default::default() }));
        expect_error(c, &svc, &rec, &op_request("PutObject"), "InternalError", None, "unsendable output").await;
        rec.answer::<GetObjectOutput, GetObjectError>("GetObject", Ok(GetObjectOutput { last_modified: Some("yesterday".into()), ..Default::default() }));
        expect_error(c, &svc, &rec, &op_request("GetObject"), "InternalError", None, "unsendable output").await;
        rec.answer::<GetObjectOutput, GetObjectError>("GetObject", Ok(GetObjectOutput { metadata: Some(HashMap::from([("a b".to_string(), "v".to_string())])), ..Default::default() }));
        expect_error(c, &svc, &rec, &op_request("GetObject"), "InternalError", None, "unsendable output").await;
    }
    // failures the server finds itself
    let own: &[(Req, &str)] = &[
        (Req::new("GET", "/a"), "InvalidBucketName"), (Req::new("GET", "/bkt/%ff"), "InvalidURI"), (Req::new("OPTIONS", "*"), "InvalidURI"),
        (Req::new("GET", &format!("/bkt/{}", "k".repeat(1025))), "KeyTooLongError"),
        (Req::new("PUT", "/bkt/k").h("content-type", "no mime"), "InvalidRequest"),
        (Req::new("PUT", "/bkt/k").h("x-amz-copy-source", "nothing"), "InvalidRequest"),
        (Req::new("PUT", "/bkt/k?partNumber=x&uploadId=1"), "InvalidRequest"),
        (Req::new("PUT", "/bkt/k").h("content-length", "many"), "InvalidRequest"),
        (Req::new("GET", "/bkt?max-keys=x"), "InvalidRequest"),
        (Req::new("POST", "/bkt?delete").body(b"<Delete"), "InvalidRequest"),
        (Req::new("GET", "/bkt?acl"), "NotImplemented"), (Req::new("GET", "/bkt/k?tagging"), "NotImplemented"),
        (Req::new("POST", "/bkt/k"), "NotSupported"), (Req::new("PATCH", "/bkt/k"), "NotSupported"),
        (Req::new("GET", "/bkt/k").h("authorization", "x"), "InvalidRequest"),
        (Req::new("GET", "/bkt/k?X-Amz-Signature=1"), "InvalidRequest"),
    ];
    for (q, code) in own { expect_error(c, &svc, &rec, q, code, None, "own error").await; }
    let (asvc, arec) = service(true);
    expect_error(c, &asvc, &arec, &Req::new("GET", "/bkt/k"), "AccessDenied", None, "own error").await;
    let ps = plans(&mut r);
    for p in &ps {
        let good = Signer { access: USERS[0].0.into(), secret: USERS[0].1.into(), region: "us-east-1".into(), date: now_date(0) };
        let unknown = Signer { access: "NOBODY".into(), ..good.clone() };
        let wrong = Signer { secret: "wrong".into(), ..good.clone() };
        let q = sign_header(&mut r, p, Mode::Hash, &unknown).req(&mut r);
        expect_error(c, &asvc, &arec, &q, "NotSignedUp", None, "own error").await;
        let q = sign_header(&mut r, p, Mode::Hash, &wrong).req(&mut r);
        expect_error(c, &asvc, &arec, &q, "SignatureDoesNotMatch", None, "own error").await;
        let q = presign(&mut r, p, &wrong, "600").req(&mut r);
        expect_error(c, &asvc, &arec, &q, "SignatureDoesNotMatch", None, "own error").await;
    }
    // the file system storage
    let w = World::new(c);
    let none = Rec::default();
    for (q, code) in [
        (Req::new("PUT", "/bkt"), ""), (Req::new("PUT", "/bkt/k").body(b"0123456789"), ""),
        (Req::new("PUT", "/bkt"), "BucketAlreadyExists"), (Req::new("GET", "/bkt/none"), "NoSuchKey"), (Req::new("HEAD", "/bkt/none"), "NoSuchKey"),
        (Req::new("HEAD", "/none"), "NoSuchBucket"), (Req::new("GET", "/none"), "NoSuchBucket"), (Req::new("GET", "/none?list-type=2"), "NoSuchBucket"),
        (Req::new("GET", "/none?location"), "NoSuchBucket"), (Req::new("DELETE", "/none"), "NoSuchBucket"), (Req::new("PUT", "/none/k").body(b"x"), "NoSuchBucket"),
        (Req::new("GET", "/bkt/k").h("range", "bytes=10-"), "InvalidRange"), (Req::new("GET", "/bkt/k").h("range", "bytes=10-20"), "InvalidRange"),
        (Req::new("PUT", "/bkt/c").h("x-amz-copy-source", "bkt/none"), "NoSuchKey"), (Req::new("PUT", "/none/c").h("x-amz-copy-source", "bkt/k"), "NoSuchBucket"),
    ] {
        if code.is_empty() { let _ = call(&w.svc, &q).await; } else { expect_error(c, &w.svc, &none, &q, code, None, "file system error").await; }
    }
    w.drop_files();
}

// ---------------------------------------------------------------- C18
const HV: &[&str] = &["a", "b", "Z", "0", " ", "=", ";", ",", "\"", "'", "/", "<", ">", "&", "%20", "+", "#", "(", "é", "~", "\t"];
/// a header value without spaces at its ends (those are not part of it)
fn hv(r: &mut Rng) -> String { let s = r.string(&HV[..HV.len() - 1], 0, 10); s.trim().replace('é', "e") }
fn hv_out(r: &mut Rng) -> String { let s = r.string(HV, 1, 10); s.trim().to_string() }
fn text(r: &mut Rng) -> String {
    match r.below(5) {
        0 => r.string(&["<", ">", "&", "\"", "'", "]]>", "&amp;", "&lt;", "<![CDATA[", "--", "a"], 0, 8),
        1 => r.string(&["é", "日", "\u{1f600}", "\u{85}", "\u{2028}", "\u{fffd}", "x"], 0, 8),
        2 => r.string(&[" ", "\n", "\t", "a"], 0, 6),
        _ => r.string(&["a", "b/", "c", " ", ".", "%", "+", "\\"], 0, 10),
    }
}
struct In { req: Req, want: String, meta: Option<BTreeMap<String, String>>, body: Option<Vec<u8>>, op: &'static str }

fn metas(r: &mut Rng) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for _ in 0..r.below(4) { m.insert(r.string(&["a", "b", "c-", "_x", "9", "."], 1, 5), hv(r)); }
    m
}
fn inputs(r: &mut Rng) -> Vec<In> {
    let b = crate::auth::rand_bucket(r);
    let k = { let k = crate::auth::rand_key(r); k };
    let bp = format!("/{}", b);
    let op = format!("/{}/{}", b, enc(k.as_bytes(), true));
    let mut out = vec![];
    fn fin<I: Inp>(op: &'static str, req: Req, i: I, meta: Option<BTreeMap<String, String>>, body: Option<Vec<u8>>) -> In {
        let (want, _) = norm(i);
        In { req, want, meta, body, op }
    }
    // a header of the request and the field it becomes
    macro_rules! hdr { ($r:ident $q:ident $i:ident; $($n:literal $f:ident),* $(,)?) => { $( if $r.chance(1, 3) { let v = hv($r); $q = $q.h($n, &v); $i.$f = Some(v); } )* } }
    macro_rules! pad { ($r:ident $q:ident; $($n:literal),*) => { $( if $r.chance(1, 6) { $q = $q.h($n, "unrelated"); } )* } }
    let mime = |r: &mut Rng| r.pick(&["text/plain", "application/octet-stream", "a/b; c=d", "text/html; charset=utf-8", "Image/PNG"]).to_string();
    {
        let n = *r.pick(&[0usize, 1, 7, 100, 5000]);
        let data = r.bytes(n);
        let mut i = PutObjectRequest { bucket: b.clone(), key: k.clone(), ..Default::default() };
        let fr = r.fragment(&data);
        let mut q = Req::new("PUT", &op).frames(fr);
        if r.chance(1, 3) { i.content_length = Some(data.len() as i64); q = q.h("content-length", &data.len().to_string()); }
        if r.chance(1, 3) { let m = mime(r); q = q.h("content-type", &m); i.content_type = Some(m); }
        hdr!(r q i; "x-amz-acl" acl, "cache-control" cache_control, "content-disposition" content_disposition, "content-encoding" content_encoding,
            "content-language" content_language, "content-md5" content_md5, "expires" expires, "x-amz-grant-full-control" grant_full_control,
            "x-amz-grant-read" grant_read, "x-amz-grant-read-acp" grant_read_acp, "x-amz-grant-write-acp" grant_write_acp,
            "x-amz-server-side-encryption" server_side_encryption, "x-amz-storage-class" storage_class, "x-amz-website-redirect-location" website_redirect_location,
            "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm, "x-amz-server-side-encryption-customer-key" sse_customer_key,
            "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5, "x-amz-server-side-encryption-aws-kms-key-id" ssekms_key_id,
            "x-amz-server-side-encryption-context" ssekms_encryption_context, "x-amz-request-payer" request_payer, "x-amz-tagging" tagging,
            "x-amz-object-lock-mode" object_lock_mode, "x-amz-object-lock-retain-until-date" object_lock_retain_until_date, "x-amz-object-lock-legal-hold" object_lock_legal_hold_status);
        pad!(r q; "range", "if-match", "x-amz-mfa", "user-agent", "x-amz-met", "x-amz-metadata-directive");
        let m = metas(r);
        for (n, v) in &m { q = q.h(&format!("x-amz-meta-{}", n), v); }
        out.push(fin("PutObject", q, i, if m.is_empty() { None } else { Some(m) }, Some(data)));
    }
    {
        let src = r.pick(&["srcb/k", "/srcb/k/l", "srcb/a%20b", "srcb/a+b%2Fc", "srcb/é".trim_end_matches('é'), "b.c/x y"]).to_string();
        let src = if src.ends_with('/') { format!("{}z", src) } else { src };
        let mut i = CopyObjectRequest { bucket: b.clone(), key: k.clone(), copy_source: src.clone(), ..Default::default() };
        let mut q = Req::new("PUT", &op).h("x-amz-copy-source", &src);
        if r.chance(1, 3) { let m = mime(r); q = q.h("content-type", &m); i.content_type = Some(m); }
        hdr!(r q i; "x-amz-acl" acl, "cache-control" cache_control, "content-disposition" content_disposition, "content-encoding" content_encoding,
            "content-language" content_language, "x-amz-copy-source-if-match" copy_source_if_match, "x-amz-copy-source-if-modified-since" copy_source_if_modified_since,
            "x-amz-copy-source-if-none-match" copy_source_if_none_match, "x-amz-copy-source-if-unmodified-since" copy_source_if_unmodified_since,
            "expires" expires, "x-amz-grant-full-control" grant_full_control, "x-amz-grant-read" grant_read, "x-amz-grant-read-acp" grant_read_acp,
            "x-amz-grant-write-acp" grant_write_acp, "x-amz-metadata-directive" metadata_directive, "x-amz-tagging-directive" tagging_directive,
            "x-amz-server-side-encryption" server_side_encryption, "x-amz-storage-class" storage_class, "x-amz-website-redirect-location" website_redirect_location,
            "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm, "x-amz-server-side-encryption-customer-key" sse_customer_key,
            "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5, "x-amz-server-side-encryption-aws-kms-key-id" ssekms_key_id,
            "x-amz-server-side-encryption-context" ssekms_encryption_context,
            "x-amz-copy-source-server-side-encryption-customer-algorithm" copy_source_sse_customer_algorithm,
            "x-amz-copy-source-server-side-encryption-customer-key" copy_source_sse_customer_key,
            "x-amz-copy-source-server-side-encryption-customer-key-md5" copy_source_sse_customer_key_md5,
            "x-amz-request-payer" request_payer, "x-amz-tagging" tagging, "x-amz-object-lock-mode" object_lock_mode,
            "x-amz-object-lock-retain-until-date" object_lock_retain_until_date, "x-amz-object-lock-legal-hold" object_lock_legal_hold_status);
        let m = metas(r);
        for (n, v) in &m { q = q.h(&format!("x-amz-meta-{}", n), v); }
        out.push(fin("CopyObject", q, i, if m.is_empty() { None } else { Some(m) }, None));
    }
    {
        let mut i = CreateMultipartUploadRequest { bucket: b.clone(), key: k.clone(), ..Default::default() };
        let mut q = Req::new("POST", &format!("{}?uploads", op));
        if r.chance(1, 3) { let m = mime(r); q = q.h("content-type", &m); i.content_type = Some(m); }
        hdr!(r q i; "x-amz-acl" acl, "cache-control" cache_control, "content-disposition" content_disposition, "content-encoding" content_encoding,
            "content-language" content_language, "expires" expires, "x-amz-grant-full-control" grant_full_control, "x-amz-grant-read" grant_read,
            "x-amz-grant-read-acp" grant_read_acp, "x-amz-grant-write-acp" grant_write_acp, "x-amz-server-side-encryption" server_side_encryption,
            "x-amz-storage-class" storage_class, "x-amz-website-redirect-location" website_redirect_location,
            "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm, "x-amz-server-side-encryption-customer-key" sse_customer_key,
            "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5, "x-amz-server-side-encryption-aws-kms-key-id" ssekms_key_id,
            "x-amz-server-side-encryption-context" ssekms_encryption_context, "x-amz-request-payer" request_payer, "x-amz-tagging" tagging,
            "x-amz-object-lock-mode" object_lock_mode, "x-amz-object-lock-retain-until-date" object_lock_retain_until_date, "x-amz-object-lock-legal-hold" object_lock_legal_hold_status);
        let m = metas(r);
        for (n, v) in &m { q = q.h(&format!("x-amz-meta-{}", n), v); }
        out.push(fin("CreateMultipartUpload", q, i, if m.is_empty() { None } else { Some(m) }, None));
    }
    {
        let mut i = GetObjectRequest { bucket: b.clone(), key: k.clone(), ..Default::default() };
        let mut q = Req::new("GET", &op);
        hdr!(r q i; "if-match" if_match, "if-modified-since" if_modified_since, "if-none-match" if_none_match, "if-unmodified-since" if_unmodified_since,
            "range" range, "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm, "x-amz-server-side-encryption-customer-key" sse_customer_key,
            "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5, "x-amz-request-payer" request_payer);
        pad!(r q; "if-range", "x-amz-meta-q", "x-amz-copy-source", "x-amz-acl");
        out.push(fin("GetObject", q, i, None, None));
    }
    {
        let mut i = HeadObjectRequest { bucket: b.clone(), key: k.clone(), ..Default::default() };
        let mut q = Req::new("HEAD", &op);
        hdr!(r q i; "if-match" if_match, "if-modified-since" if_modified_since, "if-none-match" if_none_match, "if-unmodified-since" if_unmodified_since,
            "range" range, "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm, "x-amz-server-side-encryption-customer-key" sse_customer_key,
            "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5, "x-amz-request-payer" request_payer);
        out.push(fin("HeadObject", q, i, None, None));
    }
    {
        let n = *r.pick(&[0usize, 1, 7, 100, 5000]);
        let data = r.bytes(n);
        let id = r.string(&["a", "B", "0", "-", " ", "+", "%", "é", "&", "=", "/"], 1, 10);
        let pn = *r.pick(&[1i64, 2, 10000, 0, -1, i64::MAX, 77]);
        let mut i = UploadPartRequest { bucket: b.clone(), key: k.clone(), part_number: pn, upload_id: id.clone(), ..Default::default() };
        let t = if r.chance(1, 2) { format!("{}?partNumber={}&uploadId={}", op, pn, enc(id.as_bytes(), false)) } else { format!("{}?uploadId={}&x=y&partNumber={}", op, enc(id.as_bytes(), false), pn) };
        let mut q = Req::new("PUT", &t).frames(r.fragment(&data));
        if r.chance(1, 3) { i.content_length = Some(data.len() as i64); q = q.h("content-length", &data.len().to_string()); }
        hdr!(r q i; "content-md5" content_md5, "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm,
            "x-amz-server-side-encryption-customer-key" sse_customer_key, "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5);
        out.push(fin("UploadPart", q, i, None, Some(data)));
    }
    let ns = if r.chance(1, 2) { " xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\"" } else { "" };
    let decl = if r.chance(1, 2) { "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" } else { "" };
    let gap = *r.pick(&["", "\n", "\n  ", " "]);
    // text in XML without spaces at its ends
    let xt = |r: &mut Rng| { let t = text(r); let t = t.trim_matches(|c: char| c.is_whitespace()).to_string(); if t.is_empty() { "k".to_string() } else { t } };
    let xesc = |r: &mut Rng, s: &str| if r.chance(1, 4) && !s.contains("]]>") { format!("<![CDATA[{}]]>", s) } else if r.chance(1, 3) { s.chars().map(|c| if r.chance(1, 3) || "<&>\"'".contains(c) { if r.chance(1, 2) { format!("&#{};", c as u32) } else { format!("&#x{:x};", c as u32) } } else { c.to_string() }).collect() } else { xml::esc(s) };
    {
        let id = r.string(&["a", "B", "0", "-", " ", "%"], 1, 10);
        let mut parts = vec![];
        let mut x = format!("{}<CompleteMultipartUpload{}>{}", decl, ns, gap);
        for _ in 0..r.below(5) {
            let e = if r.chance(4, 5) { Some(xt(r)) } else { None };
            let n = if r.chance(4, 5) { Some(*r.pick(&[1i64, 2, 3, 10000, 0, -5, i64::MAX])) } else { None };
            x.push_str("<Part>");
            let a = e.as_ref().map(|e| format!("<ETag>{}</ETag>{}", xesc(r, e), gap)).unwrap_or_default();
            let bb = n.map(|n| format!("<PartNumber>{}</PartNumber>{}", n, gap)).unwrap_or_default();
            if r.chance(1, 2) { x.push_str(&a); x.push_str(&bb); } else { x.push_str(&bb); x.push_str(&a); }
            x.push_str("</Part>");
            x.push_str(gap);
            parts.push(CompletedPart { e_tag: e, part_number: n });
        }
        x.push_str("</CompleteMultipartUpload>");
        let mut i = CompleteMultipartUploadRequest { bucket: b.clone(), key: k.clone(), upload_id: id.clone(), multipart_upload: Some(CompletedMultipartUpload { parts: Some(parts) }), ..Default::default() };
        let mut q = Req::new("POST", &format!("{}?uploadId={}", op, enc(id.as_bytes(), false))).frames(r.fragment(x.as_bytes()));
        hdr!(r q i; "x-amz-request-payer" request_payer);
        out.push(fin("CompleteMultipartUpload", q, i, None, None));
    }
    {
        let mut objects = vec![];
        let mut x = format!("{}<Delete{}>{}", decl, ns, gap);
        let quiet = *r.pick(&[None, Some(true), Some(false)]);
        let first = r.chance(1, 2);
        if first { if let Some(qt) = quiet { x.push_str(&format!("<Quiet>{}</Quiet>{}", qt, gap)); } }
        for _ in 0..r.range(1, 5) {
            let key = xt(r);
            let v = if r.chance(1, 3) { Some(xt(r)) } else { None };
            x.push_str(&format!("<Object>{}<Key>{}</Key>{}", gap, xesc(r, &key), gap));
            if let Some(v) = &v { x.push_str(&format!("<VersionId>{}</VersionId>{}", xesc(r, v), gap)); }
            x.push_str("</Object>");
            x.push_str(gap);
            objects.push(ObjectIdentifier { key, version_id: v });
        }
        if !first { if let Some(qt) = quiet { x.push_str(&format!("<Quiet>{}</Quiet>", qt)); } }
        x.push_str("</Delete>");
        let mut i = DeleteObjectsRequest { bucket: b.clone(), delete: Delete { objects, quiet }, ..Default::default() };
        let mut q = Req::new("POST", &format!("{}?delete", bp)).frames(r.fragment(x.as_bytes()));
        hdr!(r q i; "x-amz-mfa" mfa, "x-amz-request-payer" request_payer);
        if r.chance(1, 3) { let v = r.chance(1, 2); q = q.h("x-amz-bypass-governance-retention", &v.to_string()); i.bypass_governance_retention = Some(v); }
        out.push(fin("DeleteObjects", q, i, None, None));
    }
    {
        let mut i = DeleteObjectRequest { bucket: b.clone(), key: k.clone(), ..Default::default() };
        let mut q = Req::new("DELETE", &op);
        hdr!(r q i; "x-amz-mfa" mfa, "x-amz-request-payer" request_payer);
        if r.chance(1, 3) { let v = r.chance(1, 2); q = q.h("x-amz-bypass-governance-retention", &v.to_string()); i.bypass_governance_retention = Some(v); }
        out.push(fin("DeleteObject", q, i, None, None));
    }
    let qtext = |r: &mut Rng| r.string(&["a", "/", " ", "+", "&", "=", "%", "é", "日", "#", "?", "..", "%41", "\""], 0, 8);
    macro_rules! qry { ($r:ident $v:ident $i:ident; $($n:literal $f:ident),*) => { $( if $r.chance(1, 2) { let t = qtext($r); $v.push(($n.to_string(), t.clone())); $i.$f = Some(t); } )* } }
    let qenc = |r: &mut Rng, v: &mut Vec<(String, String)>| { let n = v.len(); for i in (1..n).rev() { let j = r.below(i + 1); v.swap(i, j); } v.iter().map(|(a, b)| { let e = enc(b.as_bytes(), false); format!("{}={}", enc(a.as_bytes(), false), if r.chance(1, 2) { e.replace("%20", "+") } else { e }) }).collect::<Vec<_>>().join("&") };
    {
        let mut i = ListObjectsRequest { bucket: b.clone(), ..Default::default() };
        let mut v = vec![];
        qry!(r v i; "delimiter" delimiter, "encoding-type" encoding_type, "marker" marker, "prefix" prefix);
        if r.chance(1, 2) { let n = *r.pick(&[0i64, 1, 1000, -1, i64::MAX]); v.push(("max-keys".into(), n.to_string())); i.max_keys = Some(n); }
        if r.chance(1, 4) { v.push(("start-after".into(), "zzz".into())); }
        let t = format!("{}?{}", bp, qenc(r, &mut v));
        let mut q = Req::new("GET", &t);
        hdr!(r q i; "x-amz-request-payer" request_payer);
        out.push(fin("ListObjects", q, i, None, None));
    }
    {
        let mut i = ListObjectsV2Request { bucket: b.clone(), ..Default::default() };
        let mut v = vec![("list-type".to_string(), "2".to_string())];
        qry!(r v i; "delimiter" delimiter, "encoding-type" encoding_type, "prefix" prefix, "continuation-token" continuation_token, "start-after" start_after);
        if r.chance(1, 2) { let n = *r.pick(&[0i64, 1, 1000, -1, i64::MAX]); v.push(("max-keys".into(), n.to_string())); i.max_keys = Some(n); }
        if r.chance(1, 2) { let n = r.chance(1, 2); v.push(("fetch-owner".into(), n.to_string())); i.fetch_owner = Some(n); }
        if r.chance(1, 4) { v.push(("marker".into(), "zzz".into())); }
        let t = format!("{}?{}", bp, qenc(r, &mut v));
        let mut q = Req::new("GET", &t);
        hdr!(r q i; "x-amz-request-payer" request_payer);
        out.push(fin("ListObjectsV2", q, i, None, None));
    }
    {
        let mut i = CreateBucketRequest { bucket: b.clone(), ..Default::default() };
        let mut q = Req::new("PUT", &bp);
        if r.chance(2, 3) {
            let loc = if r.chance(3, 4) { Some(xt(r)) } else { None };
            let x = format!("{}<CreateBucketConfiguration{}>{}</CreateBucketConfiguration>", decl, ns, loc.as_ref().map(|l| format!("<LocationConstraint>{}</LocationConstraint>", xesc(r, l))).unwrap_or_default());
            q = q.frames(r.fragment(x.as_bytes()));
            i.create_bucket_configuration = Some(CreateBucketConfiguration { location_constraint: loc });
        }
        hdr!(r q i; "x-amz-acl" acl, "x-amz-grant-full-control" grant_full_control, "x-amz-grant-read" grant_read, "x-amz-grant-read-acp" grant_read_acp,
            "x-amz-grant-write" grant_write, "x-amz-grant-write-acp" grant_write_acp);
        if r.chance(1, 3) { let v = r.chance(1, 2); q = q.h("x-amz-bucket-object-lock-enabled", &v.to_string()); i.object_lock_enabled_for_bucket = Some(v); }
        out.push(fin("CreateBucket", q, i, None, None));
    }
    {
        let mut i = DeleteBucketRequest { bucket: b.clone(), ..Default::default() };
        let mut q = Req::new("DELETE", &bp);
        hdr!(r q i; "x-amz-expected-bucket-owner" expected_bucket_owner);
        out.push(fin("DeleteBucket", q, i, None, None));
        let mut i = HeadBucketRequest { bucket: b.clone(), ..Default::default() };
        let mut q = Req::new("HEAD", &format!("{}/", bp));
        hdr!(r q i; "x-amz-expected-bucket-owner" expected_bucket_owner);
        out.push(fin("HeadBucket", q, i, None, None));
        let mut i = GetBucketLocationRequest { bucket: b.clone(), ..Default::default() };
        let mut q = Req::new("GET", &format!("{}?location", bp));
        hdr!(r q i; "x-amz-expected-bucket-owner" expected_bucket_owner);
        out.push(fin("GetBucketLocation", q, i, None, None));
        out.push(fin("ListBuckets", Req::new("GET", "/"), ListBucketsRequest, None, None));
    }
    out
}
type H = Vec<(&'static str, String)>;
/// expected headers and, for XML answers, the expected document
fn xn(name: &str, text: &str) -> xml::Node { xml::Node { name: name.into(), text: text.into(), kids: vec![] } }
fn add(n: &mut xml::Node, name: &str, t: &Option<String>) { if let Some(t) = t { n.kids.push(xn(name, t)); } }
/// compare as trees: element order among different names is not part of the answer, text between elements neither
fn same(a: &xml::Node, b: &xml::Node) -> bool {
    if a.name != b.name || a.kids.len() != b.kids.len() { return false; }
    if a.kids.is_empty() { return a.text == b.text; }
    let names: std::collections::BTreeSet<&str> = a.kids.iter().chain(b.kids.iter()).map(|k| k.name.as_str()).collect();
    names.into_iter().all(|n| {
        let x: Vec<_> = a.all(n).collect();
        let y: Vec<_> = b.all(n).collect();
        x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q))
    })
}
struct Out { op: &'static str, status: u16, headers: H, doc: Option<xml::Node>, body: Option<Vec<u8>>, show: String }
fn outputs(r: &mut Rng, rec: &Rec, tx: &dyn Fn(&mut Rng) -> String) -> Vec<Out> {
    let mut outs = vec![];
    macro_rules! hdr { ($r:ident $h:ident $o:ident; $($n:literal $f:ident),* $(,)?) => { $( if $r.chance(1, 3) { let v = hv_out($r); $h.push(($n, v.clone())); $o.$f = Some(v); } )* } }
    macro_rules! opt { ($r:ident $o:ident; $($f:ident),*) => { $( if $r.chance(2, 3) { $o.$f = Some(tx($r)); } )* } }
    let date = |r: &mut Rng| -> (String, String) {
        let t = chrono::DateTime::from_timestamp(r.below(4_000_000_000) as i64, 0).unwrap();
        let off = *r.pick(&[0i32, 3600, -18000, 19800]);
        (t.with_timezone(&chrono::FixedOffset::east_opt(off).unwrap()).to_rfc3339(), t.format("%a, %d %b %Y %H:%M:%S GMT").to_string())
    };
    macro_rules! obj { ($t:ident, $op:literal, $e:ty, $r:ident) => {{
        let mut o = $t::default();
        let mut h: H = vec![];
        hdr!($r h o; "accept-ranges" accept_ranges, "x-amz-expiration" expiration, "x-amz-restore" restore, "etag" e_tag, "x-amz-version-id" version_id,
            "cache-control" cache_control, "content-disposition" content_disposition, "content-encoding" content_encoding, "content-language" content_language,
            "content-type" content_type, "expires" expires, "x-amz-website-redirect-location" website_redirect_location,
            "x-amz-server-side-encryption" server_side_encryption, "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm,
            "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5, "x-amz-server-side-encryption-aws-kms-key-id" ssekms_key_id,
            "x-amz-storage-class" storage_class, "x-amz-request-charged" request_charged, "x-amz-replication-status" replication_status,
            "x-amz-object-lock-mode" object_lock_mode, "x-amz-object-lock-retain-until-date" object_lock_retain_until_date, "x-amz-object-lock-legal-hold" object_lock_legal_hold_status);
        if $r.chance(1, 2) { let v = $r.chance(1, 2); o.delete_marker = Some(v); h.push(("x-amz-delete-marker", v.to_string())); }
        if $r.chance(1, 2) { let v = $r.below(100) as i64; o.missing_meta = Some(v); h.push(("x-amz-missing-meta", v.to_string())); }
        if $r.chance(1, 2) { let v = $r.below(100) as i64; o.parts_count = Some(v); h.push(("x-amz-mp-parts-count", v.to_string())); }
        if $r.chance(1, 2) { let (a, b) = date($r); o.last_modified = Some(a); h.push(("last-modified", b)); }
        if $r.chance(1, 2) {
            let mut m = HashMap::new();
            for _ in 0..$r.below(4) { let n = *$r.pick(&["a", "b-c", "x.y", "zz", "q9"]); m.insert(n.to_string(), hv_out($r)); }
            for (n, v) in &m { h.push((match n.as_str() { "a" => "x-amz-meta-a", "b-c" => "x-amz-meta-b-c", "x.y" => "x-amz-meta-x.y", "zz" => "x-amz-meta-zz", _ => "x-amz-meta-q9" }, v.clone())); }
            o.metadata = Some(m);
        }
        (o, h)
    }} }
    {
        let (mut o, mut h) = obj!(GetObjectOutput, "GetObject", GetObjectError, r);
        if r.chance(1, 2) { let v = hv_out(r); o.content_range = Some(v.clone()); h.push(("content-range", v)); }
        if r.chance(1, 2) { let v = r.below(100) as i64; o.tag_count = Some(v); h.push(("x-amz-tagging-count", v.to_string())); }
        let n = *r.pick(&[0usize, 1, 10, 3000]);
        let data = r.bytes(n);
        if r.chance(1, 2) { o.content_length = Some(n as i64); h.push(("content-length", n.to_string())); }
        let show = format!("{:?}", o);
        let frames: Vec<Result<hyper::body::Bytes, std::io::Error>> = r.fragment(&data).into_iter().map(|f| Ok(f.into())).collect();
        if n > 0 || r.chance(1, 2) { o.body = Some(ByteStream::new(futures::stream::iter(frames))); }
        rec.answer::<_, GetObjectError>("GetObject", Ok(o));
        outs.push(Out { op: "GetObject", status: 200, headers: h, doc: None, body: Some(data), show });
    }
    {
        let (mut o, mut h) = obj!(HeadObjectOutput, "HeadObject", HeadObjectError, r);
        if r.chance(1, 2) { let n = r.below(1000000) as i64; o.content_length = Some(n); h.push(("content-length", n.to_string())); }
        let show = format!("{:?}", o);
        rec.answer::<_, HeadObjectError>("HeadObject", Ok(o));
        outs.push(Out { op: "HeadObject", status: 200, headers: h, doc: None, body: Some(vec![]), show });
    }
    {
        let mut o = PutObjectOutput::default();
        let mut h: H = vec![];
        hdr!(r h o; "x-amz-expiration" expiration, "etag" e_tag, "x-amz-server-side-encryption" server_side_encryption, "x-amz-version-id" version_id,
            "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm, "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5,
            "x-amz-server-side-encryption-aws-kms-key-id" ssekms_key_id, "x-amz-server-side-encryption-context" ssekms_encryption_context, "x-amz-request-charged" request_charged);
        let show = format!("{:?}", o);
        rec.answer::<_, PutObjectError>("PutObject", Ok(o));
        outs.push(Out { op: "PutObject", status: 200, headers: h, doc: None, body: Some(vec![]), show });
    }
    {
        let mut o = UploadPartOutput::default();
        let mut h: H = vec![];
        hdr!(r h o; "etag" e_tag, "x-amz-server-side-encryption" server_side_encryption,
            "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm, "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5,
            "x-amz-server-side-encryption-aws-kms-key-id" ssekms_key_id, "x-amz-request-charged" request_charged);
        let show = format!("{:?}", o);
        rec.answer::<_, UploadPartError>("UploadPart", Ok(o));
        outs.push(Out { op: "UploadPart", status: 200, headers: h, doc: None, body: Some(vec![]), show });
    }
    {
        let mut o = DeleteObjectOutput::default();
        let mut h: H = vec![];
        hdr!(r h o; "x-amz-version-id" version_id, "x-amz-request-charged" request_charged);
        if r.chance(1, 2) { let v = r.chance(1, 2); o.delete_marker = Some(v); h.push(("x-amz-delete-marker", v.to_string())); }
        let show = format!("{:?}", o);
        rec.answer::<_, DeleteObjectError>("DeleteObject", Ok(o));
        outs.push(Out { op: "DeleteObject", status: 204, headers: h, doc: None, body: Some(vec![]), show });
    }
    {
        let mut o = CreateBucketOutput::default();
        let mut h: H = vec![];
        hdr!(r h o; "location" location);
        let show = format!("{:?}", o);
        rec.answer::<_, CreateBucketError>("CreateBucket", Ok(o));
        outs.push(Out { op: "CreateBucket", status: 200, headers: h, doc: None, body: Some(vec![]), show });
        outs.push(Out { op: "DeleteBucket", status: 204, headers: vec![], doc: None, body: Some(vec![]), show: String::new() });
        outs.push(Out { op: "HeadBucket", status: 200, headers: vec![], doc: None, body: Some(vec![]), show: String::new() });
    }
    {
        let mut o = CopyObjectOutput::default();
        let mut h: H = vec![];
        hdr!(r h o; "x-amz-expiration" expiration, "x-amz-copy-source-version-id" copy_source_version_id, "x-amz-version-id" version_id,
            "x-amz-server-side-encryption" server_side_encryption, "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm,
            "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5, "x-amz-server-side-encryption-aws-kms-key-id" ssekms_key_id,
            "x-amz-server-side-encryption-context" ssekms_encryption_context, "x-amz-request-charged" request_charged);
        let mut x = CopyObjectResult::default();
        opt!(r x; e_tag, last_modified);
        let mut d = xn("CopyObjectResult", "");
        add(&mut d, "ETag", &x.e_tag);
        add(&mut d, "LastModified", &x.last_modified);
        o.copy_object_result = Some(x);
        let show = format!("{:?}", o);
        rec.answer::<_, CopyObjectError>("CopyObject", Ok(o));
        outs.push(Out { op: "CopyObject", status: 200, headers: h, doc: Some(d), body: None, show });
    }
    {
        let mut o = CreateMultipartUploadOutput::default();
        let mut h: H = vec![];
        hdr!(r h o; "x-amz-abort-date" abort_date, "x-amz-abort-rule-id" abort_rule_id, "x-amz-server-side-encryption" server_side_encryption,
            "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm, "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5,
            "x-amz-server-side-encryption-aws-kms-key-id" ssekms_key_id, "x-amz-server-side-encryption-context" ssekms_encryption_context, "x-amz-request-charged" request_charged);
        opt!(r o; bucket, key, upload_id);
        let mut d = xn("InitialMultipartUploadResult", "");
        add(&mut d, "Bucket", &o.bucket);
        add(&mut d, "Key", &o.key);
        add(&mut d, "UploadId", &o.upload_id);
        // the S3 API calls it InitiateMultipartUploadResult
        d.name = "*".into();
        let show = format!("{:?}", o);
        rec.answer::<_, CreateMultipartUploadError>("CreateMultipartUpload", Ok(o));
        outs.push(Out { op: "CreateMultipartUpload", status: 200, headers: h, doc: Some(d), body: None, show });
    }
    {
        let mut o = CompleteMultipartUploadOutput::default();
        let mut h: H = vec![];
        hdr!(r h o; "x-amz-expiration" expiration, "x-amz-server-side-encryption" server_side_encryption, "x-amz-version-id" version_id,
            "x-amz-server-side-encryption-aws-kms-key-id" ssekms_key_id, "x-amz-request-charged" request_charged);
        opt!(r o; bucket, key, e_tag, location);
        let mut d = xn("CompleteMultipartUploadResult", "");
        add(&mut d, "Location", &o.location);
        add(&mut d, "Bucket", &o.bucket);
        add(&mut d, "Key", &o.key);
        add(&mut d, "ETag", &o.e_tag);
        let show = format!("{:?}", o);
        rec.answer::<_, CompleteMultipartUploadError>("CompleteMultipartUpload", Ok(o));
        outs.push(Out { op: "CompleteMultipartUpload", status: 200, headers: h, doc: Some(d), body: None, show });
    }
    {
        let mut o = DeleteObjectsOutput::default();
        let mut h: H = vec![];
        hdr!(r h o; "x-amz-request-charged" request_charged);
        let mut d = xn("DeleteResult", "");
        let mut del = vec![];
        for _ in 0..r.below(4) {
            let mut x = DeletedObject::default();
            opt!(r x; delete_marker_version_id, key, version_id);
            if r.chance(1, 2) { x.delete_marker = Some(r.chance(1, 2)); }
            let mut n = xn("Deleted", "");
            add(&mut n, "DeleteMarker", &x.delete_marker.map(|b| b.to_string()));
            add(&mut n, "DeleteMarkerVersionId", &x.delete_marker_version_id);
            add(&mut n, "Key", &x.key);
            add(&mut n, "VersionId", &x.version_id);
            d.kids.push(n);
            del.push(x);
        }
        o.deleted = if del.is_empty() && r.chance(1, 2) { None } else { Some(del) };
        let show = format!("{:?}", o);
        rec.answer::<_, DeleteObjectsError>("DeleteObjects", Ok(o));
        outs.push(Out { op: "DeleteObjects", status: 200, headers: h, doc: Some(d), body: None, show });
    }
    {
        let o = GetBucketLocationOutput { location_constraint: if r.chance(3, 4) { Some(tx(r)) } else { None } };
        let d = xn("LocationConstraint", o.location_constraint.as_deref().unwrap_or(""));
        let show = format!("{:?}", o);
        rec.answer::<_, GetBucketLocationError>("GetBucketLocation", Ok(o));
        outs.push(Out { op: "GetBucketLocation", status: 200, headers: vec![], doc: Some(d), body: None, show });
    }
    let owner = |r: &mut Rng| { let mut o = Owner::default(); opt!(r o; id, display_name); o };
    let owner_node = |o: &Owner| { let mut n = xn("Owner", ""); add(&mut n, "ID", &o.id); add(&mut n, "DisplayName", &o.display_name); n };
    {
        let mut o = ListBucketsOutput::default();
        let mut d = xn("ListAllMyBucketsResult", "");
        if r.chance(3, 4) {
            let mut bs = vec![];
            let mut n = xn("Buckets", "");
            for _ in 0..r.below(4) { let mut b = Bucket::default(); opt!(r b; name, creation_date); let mut k = xn("Bucket", ""); add(&mut k, "Name", &b.name); add(&mut k, "CreationDate", &b.creation_date); n.kids.push(k); bs.push(b); }
            o.buckets = Some(bs);
            d.kids.push(n);
        }
        if r.chance(1, 2) { let w = owner(r); d.kids.push(owner_node(&w)); o.owner = Some(w); }
        let show = format!("{:?}", o);
        rec.answer::<_, ListBucketsError>("ListBuckets", Ok(o));
        outs.push(Out { op: "ListBuckets", status: 200, headers: vec![], doc: Some(d), body: None, show });
    }
    macro_rules! listing { ($o:ident, $d:ident) => {
        if r.chance(1, 2) { let v = r.chance(1, 2); $o.is_truncated = Some(v); add(&mut $d, "IsTruncated", &Some(v.to_string())); }
        if r.chance(1, 2) { let v = r.below(2000) as i64; $o.max_keys = Some(v); add(&mut $d, "MaxKeys", &Some(v.to_string())); }
        opt!(r $o; name, prefix, delimiter, encoding_type);
        add(&mut $d, "Name", &$o.name); add(&mut $d, "Prefix", &$o.prefix); add(&mut $d, "Delimiter", &$o.delimiter); add(&mut $d, "EncodingType", &$o.encoding_type);
        if r.chance(4, 5) {
            let mut cs = vec![];
            for _ in 0..r.below(5) {
                let mut b = Object::default();
                opt!(r b; key, last_modified, e_tag, storage_class);
                if r.chance(2, 3) { b.size = Some(*r.pick(&[0i64, 1, 5, 1 << 40, i64::MAX])); }
                if r.chance(1, 3) { b.owner = Some(owner(r)); }
                let mut k = xn("Contents", "");
                add(&mut k, "Key", &b.key); add(&mut k, "LastModified", &b.last_modified); add(&mut k, "ETag", &b.e_tag);
                add(&mut k, "Size", &b.size.map(|s| s.to_string())); add(&mut k, "StorageClass", &b.storage_class);
                if let Some(w) = &b.owner { k.kids.push(owner_node(w)); }
                $d.kids.push(k);
                cs.push(b);
            }
            $o.contents = Some(cs);
        }
    } }
    {
        let mut o = ListObjectsOutput::default();
        let mut d = xn("ListBucketResult", "");
        listing!(o, d);
        opt!(r o; marker, next_marker);
        add(&mut d, "Marker", &o.marker);
        add(&mut d, "NextMarker", &o.next_marker);
        let show = format!("{:?}", o);
        rec.answer::<_, ListObjectsError>("ListObjects", Ok(o));
        outs.push(Out { op: "ListObjects", status: 200, headers: vec![], doc: Some(d), body: None, show });
    }
    {
        let mut o = ListObjectsV2Output::default();
        let mut d = xn("ListBucketResult", "");
        listing!(o, d);
        opt!(r o; continuation_token, next_continuation_token, start_after);
        if r.chance(1, 2) { let v = r.below(2000) as i64; o.key_count = Some(v); add(&mut d, "KeyCount", &Some(v.to_string())); }
        add(&mut d, "ContinuationToken", &o.continuation_token);
        add(&mut d, "NextContinuationToken", &o.next_continuation_token);
        add(&mut d, "StartAfter", &o.start_after);
        let show = format!("{:?}", o);
        rec.answer::<_, ListObjectsV2Error>("ListObjectsV2", Ok(o));
        outs.push(Out { op: "ListObjectsV2", status: 200, headers: vec![], doc: Some(d), body: None, show });
    }
    outs
}
fn check_out(o: &Out, p: &Resp) -> Result<(), String> {
    if p.panicked { return Err("panic".into()); }
    if let Some(e) = &p.svc_err { return Err(e.clone()); }
    if let Some(e) = &p.body_err { return Err(e.clone()); }
    if p.status != o.status { return Err(format!("status {} instead of {}", p.status, o.status)); }
    let mut want: Vec<(String, Vec<u8>)> = o.headers.iter().map(|(n, v)| (n.to_string(), v.as_bytes().to_vec())).collect();
    want.sort();
    let mut got = p.headers.clone();
    if o.doc.is_some() {
        let ct = p.get("content-type").unwrap_or_default();
        if !ct.contains("xml") { return Err(format!("content type {:?}", ct)); }
        got.retain(|h| h.0 != "content-type");
    }
    got.sort();
    if want != got { return Err(format!("headers differ: expected {:?}", want.iter().map(|(a, b)| (a.clone(), String::from_utf8_lossy(b).into_owned())).collect::<Vec<_>>())); }
    if let Some(b) = &o.body { if *b != p.body { return Err("the body differs".into()); } }
    if let Some(d) = &o.doc {
        let mut x = xml::parse(&p.body).map_err(|e| format!("the body is not XML: {}", e))?;
        if d.name == "*" { x.name = "*".into(); }
        if !same(d, &x) { return Err(format!("the document differs: expected {:?}", d)); }
    }
    Ok(())
}
pub async fn c18(c: &mut Ctx) {
    let (svc, rec) = service(false);
    let mut r = c.rng.clone();
    for _ in 0..c.n(1200, 12000) {
        if c.done() { break; }
        for i in inputs(&mut r) {
            let mut req = i.req;
            let n = req.headers.len();
            for a in (1..n).rev() { let j = r.below(a + 1); req.headers.swap(a, j); }
            let Some(p) = call(&svc, &req).await else { continue };
            let calls = rec.take_calls();
            c.eval(&format!("in {}", i.op));
            let ok = calls.len() == 1 && calls[0].op == i.op && calls[0].input == i.want && calls[0].meta == i.meta
                && (i.body.is_none() || calls[0].body == i.body) && !calls[0].body_err;
            c.check(ok, &format!("input-{}", i.op), "a request field does not reach the storage as sent", || format!("{}\nexpected {} {} metadata {:?} body {:?}\ncalls {:?}\n{}", req.show(), i.op, i.want, i.meta, i.body.as_ref().map(|b| b.len()), calls, p.show()));
            c.sample(|| req.show());
        }
    }
    for _ in 0..c.n(1200, 12000) {
        if c.done() { break; }
        let outs = outputs(&mut r, &rec, &text);
        for o in outs {
            let q = op_request(o.op);
            let Some(p) = call(&svc, &q).await else { continue };
            rec.take_calls();
            c.eval(&format!("out {}", o.op));
            if let Err(e) = check_out(&o, &p) {
                c.fail(&format!("output-{}", o.op), "an answer of the storage is changed on its way to the client", format!("{}\noutput {}\n{}\n{}", e, o.show, p.show(), String::from_utf8_lossy(&p.body)));
            }
        }
    }
    // characters XML changes or cannot hold
    for (key, tx) in [("xml-carriage-return", "a\rb"), ("xml-control-character", "a\u{1}b")] {
        for o in outputs(&mut r, &rec, &|_| tx.to_string()) {
            let Some(p) = call(&svc, &op_request(o.op)).await else { continue };
            rec.take_calls();
            if o.doc.is_none() { continue; }
            c.eval(key);
            if let Err(e) = check_out(&o, &p) {
                if p.panicked || p.svc_err.is_some() { c.fail("output-panic", "an answer makes the server fail", e); }
                else { c.fail(key, "a character is changed on its way to the client", format!("{}\n{}", e, String::from_utf8_lossy(&p.body))); }
            }
        }
    }
    // spaces at the ends of a key in a delete list
    for k in [" k", "k ", "\tk", " k "] {
        let x = format!("<Delete><Object><Key>{}</Key></Object></Delete>", k);
        let q = Req::new("POST", "/bkt?delete").body(x.as_bytes());
        let Some(_) = call(&svc, &q).await else { continue };
        let calls = rec.take_calls();
        c.eval("key with spaces in a delete list");
        let i = DeleteObjectsRequest { bucket: "bkt".into(), delete: Delete { objects: vec![ObjectIdentifier { key: k.into(), version_id: None }], quiet: None }, ..Default::default() };
        let (want, _) = norm(i);
        c.check(calls.len() == 1 && calls[0].input == want, "delete-key-whitespace", "spaces at the ends of a key in a delete list are dropped", || format!("{}\nexpected {}\ncalls {:?}", q.show(), want, calls));
    }
}
#[allow(dead_code)]
fn unused(_: S3StorageResult<(), ()>) {}
