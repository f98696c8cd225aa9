//@ include base.rs
//@ include case.rs
//@ include eqm.rs
//@ import u07_path.vc
//@ import u08_errors.vc
//@ import u09_ordered.vc
//@ import u10_headers.vc
//@ import u01_sigv4.vc
//@ include time.rs
//@ include urldec.rs
//@ include request.rs
//@ chain
//@ headernames src/headers.rs declare_header_name
//@ hconst authorization content-type x-amz-copy-source
//@ into
//@ method into vinto_box_str
//@ method as_deref vas_deref
//@ method iter viter
//@ method sort_unstable vsort
//@ method eq_ignore_ascii_case veq_ignore_case
//@ rewrite Method :: POST ==> method_post ()
//@ rewrite Method :: PUT ==> method_put ()
//@ rewrite Method :: GET ==> method_get ()
//@ rewrite Method :: HEAD ==> method_head ()
//@ rewrite Method :: DELETE ==> method_delete ()
//@ rewrite mime :: MULTIPART ==> "multipart"
//@ rewrite mime :: FORM_DATA ==> "form-data"
//@ rewrite mime :: BOUNDARY ==> "boundary"
//@ rewrite std :: mem :: take ==> vtake
//@ rewrite mem :: take ==> vtake
//@ rewrite urlencoding :: decode ==> vurl_decode
//@ rewrite crypto :: ==>
//@ rewrite signature_v4 :: ==>
//@ rewrite multipart :: transform_multipart ==> transform_multipart
//@ rewrite hyper :: body :: to_bytes ==> to_bytes
//@ rewrite crate :: errors :: ==>
//@ rewrite ops :: ==>
//@ rewrite io :: Error :: new ==> io_error_new
//@ rewrite io :: ErrorKind ==> IoErrorKind
//@ rewrite base64_simd :: STANDARD ==> base64_std ()
//@ rewrite serde_json :: from_slice :: < serde_json :: Value > ==> json_from_slice
//@ strlist src/ops.rs UNSUPPORTED_SUB_RESOURCES
//@ rewrite chrono :: ==>
//@ rewrite i64 :: from ==> vi64
//@ rewrite dyn S3Handler + Send + Sync + 'static ==> Handler
//@ rewrite dyn S3Storage + Send + Sync + 'static ==> Storage
//@ rewrite dyn S3Auth + Send + Sync + 'static ==> Auth
//@ item src/errors.rs S3AuthError
//@ item src/streams/multipart.rs Multipart
//@ item src/ops.rs ReqContext
//@ item src/service.rs S3Service
//@ item src/auth.rs SimpleAuth
//@ text
/// a slice from its end
pub struct VRevIt<'a, T> { pub s: &'a [T], pub n: usize }
pub open spec fn rev<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
impl<'a, T> VRevIt<'a, T> {
    pub open spec fn v(&self) -> Seq<T> { rev(self.s@) }
    pub open spec fn i(&self) -> int { self.n as int }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires 0 <= old(self).i() <= old(self).v().len(),
        ensures
            final(self).v() == old(self).v(),
            old(self).i() < old(self).v().len() ==> r == Some(&old(self).v()[old(self).i()]) && final(self).i() == old(self).i() + 1,
            old(self).i() == old(self).v().len() ==> r is None && final(self).i() == old(self).i(),
    {
        if self.n < self.s.len() {
            let r = &self.s[self.s.len() - 1 - self.n];
            self.n = self.n + 1;
            Some(r)
        } else { None }
    }
}
impl<'a, T> VRefIt<'a, T> {
    pub fn rev(self) -> (r: VRevIt<'a, T>) requires self.n == 0 ensures r.v() == rev(self.v()), r.i() == 0 { VRevIt { s: self.s, n: 0 } }
}
impl<'a, T> VIntoIter for VRevIt<'a, T> {
    type It = VRevIt<'a, T>;
    open spec fn iok(self, r: VRevIt<'a, T>) -> bool { r == self }
    fn into_it(self) -> (r: VRevIt<'a, T>) { self }
}
impl HashMap<String, String> {
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &str) -> (r: Option<&'a String>)
        ensures match r { Some(s) => self@.contains_pair(k@, s@), None => !self@.contains_key(k@) }
    { unimplemented!() }
}
impl SimpleAuth {
//@ fn src/auth.rs SimpleAuth::new
//@ sig pub fn new() -> (r: Self)
//@ spec
    ensures r.map@ == Map::<Seq<char>, Seq<char>>::empty(),
//@ fn src/auth.rs SimpleAuth::register
//@ sig pub fn register(&mut self, access_key: String, secret_key: String)
//@ spec
    ensures final(self).map@ == old(self).map@.insert(access_key@, secret_key@),
//@ fn src/auth.rs SimpleAuth::lookup
//@ question * option
//@ sig pub fn lookup(&self, access_key: &str) -> (r: Option<&str>)
//@ spec
    ensures match r { Some(s) => self.map@.contains_pair(access_key@, s@), None => !self.map@.contains_key(access_key@) },
//@ fn src/auth.rs SimpleAuth=S3Auth::get_secret_access_key
//@ sig pub fn get_secret_access_key(&self, access_key_id: &str) -> (r: Result<String, S3AuthError>)
//@ spec
    ensures match r {
        Ok(s) => self.map@.contains_pair(access_key_id@, s@),
        Err(e) => e is NotSignedUp && !self.map@.contains_key(access_key_id@),
    },
//@ text
}
impl Multipart {
    /// field names are compared without case, the last one counts
    pub open spec fn field(&self, name: Seq<char>, r: Option<Seq<char>>) -> bool { field_of(self.fields.pv(), name, r) }
//@ fn src/streams/multipart.rs Multipart::find_field_value
//@ sig pub fn find_field_value<'a>(&'a self, name: &str) -> (r: Option<&'a str>)
//@ comb then option
//@ spec
    ensures self.field(name@, opt_view(r)),
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0
    invariant
        it0.v() == rev(self.fields@),
        0 <= it0.i() <= it0.v().len(),
        opt_view(fnd0) is None,
        forall|j: int| self.fields@.len() - it0.i() <= j < self.fields@.len() ==> !same_name((#[trigger] self.fields.pv()[j]).0, name@),
    decreases it0.v().len() - it0.i(),
//@ hint after_loop0
    proof {
        let k = self.fields@.len() - it0.i();
        if opt_view(fnd0) is Some {
            assert(self.fields.pv()[k] == (self.fields@[k].0@, self.fields@[k].1@));
            assert(same_name(self.fields.pv()[k].0, name@));
        }
    }
//@ text
}
pub open spec fn opt_view(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn same_name(a: Seq<char>, b: Seq<char>) -> bool { lower(a) == lower(b) }
pub open spec fn field_of(f: Seq<SPair>, name: Seq<char>, r: Option<Seq<char>>) -> bool {
    match r {
        Some(v) => exists|i: int| 0 <= i < f.len() && same_name((#[trigger] f[i]).0, name) && f[i].1 == v && (forall|j: int| i < j < f.len() ==> !same_name((#[trigger] f[j]).0, name)),
        None => forall|j: int| 0 <= j < f.len() ==> !same_name((#[trigger] f[j]).0, name),
    }
}
//@ fn src/headers/amz_date.rs AmzDate::to_naive_date_time
//@ sig pub fn to_naive_date_time(self_: AmzDate) -> (r: Option<NaiveDateTime>)
//@ spec
    requires self_.inv(),
    ensures match r { Some(t) => moment(self_) == Some(t.ns()), None => moment(self_) is None },
//@ method try_into vtry_into
//@ question * option
//@ text
/// when an x-amz-date is, if it exists
pub open spec fn moment(t: AmzDate) -> Option<int> {
    if calendar_date(t.year as int, t.month as int, t.day as int) && t.hour < 24 && t.minute < 60 && t.second < 60 {
        Some(instant(t.year as int, t.month as int, t.day as int, t.hour as int, t.minute as int, t.second as int))
    } else { None }
}
impl AmzDate { pub fn to_naive_date_time(self) -> (r: Option<NaiveDateTime>)
    requires self.inv(),
    ensures match r { Some(t) => moment(self) == Some(t.ns()), None => moment(self) is None },
{ to_naive_date_time(self) } }
pub fn vi64(x: u32) -> (r: i64) ensures r == x { x as i64 }
pub struct TryFromIntError;
pub trait VTryInto<T>: Sized { spec fn tiok(self, r: Result<T, TryFromIntError>) -> bool; fn vtry_into(self) -> (r: Result<T, TryFromIntError>) ensures self.tiok(r); }
impl VTryInto<i32> for u32 {
    open spec fn tiok(self, r: Result<i32, TryFromIntError>) -> bool { match r { Ok(x) => x as int == self as int, Err(_) => self > i32::MAX } }
    fn vtry_into(self) -> (r: Result<i32, TryFromIntError>) { if self <= 0x7fff_ffff { Ok(self as i32) } else { Err(TryFromIntError) } }
}
// ---------------------------------------------------------------- base64, JSON (trusted)
pub uninterp spec fn base64(s: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn json(b: Seq<u8>) -> Option<Value>;
#[verifier::external_body]
pub struct Value { _p: () }
#[verifier::external_body]
pub struct JsonError { _p: () }
impl Value {
    pub uninterp spec fn member(&self, k: Seq<char>) -> Option<Value>;
    pub uninterp spec fn text(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Value>) ensures match r { Some(v) => self.member(k@) == Some(*v), None => self.member(k@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: Option<&str>) ensures match r { Some(s) => self.text() == Some(s@), None => self.text() is None } { unimplemented!() }
}
pub struct Base64;
pub struct Base64Error;
impl Base64 {
    #[verifier::external_body]
    pub fn check(&self, b: &[u8]) -> (r: Result<(), Base64Error>) ensures r is Ok <==> base64(b@) is Some { unimplemented!() }
    #[verifier::external_body]
    pub fn decode_to_vec(&self, s: &str) -> (r: Result<Vec<u8>, Base64Error>) ensures match r { Ok(v) => base64(encode_utf8(s@)) == Some(v@), Err(_) => base64(encode_utf8(s@)) is None } { unimplemented!() }
}
pub fn base64_std() -> Base64 { Base64 }
#[verifier::external_body]
pub fn json_from_slice(b: &[u8]) -> (r: Result<Value, JsonError>) ensures match r { Ok(v) => json(b@) == Some(v), Err(_) => json(b@) is None } { unimplemented!() }
// ---------------------------------------------------------------- the provider and the storage
#[verifier::external_body]
pub struct Auth { _p: () }
impl Auth {
    /// the provider knows this secret for this access key
    pub uninterp spec fn gives(&self, akid: Seq<char>, secret: Seq<char>) -> bool;
    pub uninterp spec fn refuses(&self, akid: Seq<char>) -> bool;
    #[verifier::external_body]
    pub fn get_secret_access_key(&self, id: &str) -> (r: Result<String, S3AuthError>)
        ensures match r { Ok(s) => self.gives(id@, s@), Err(_) => self.refuses(id@) }
    { unimplemented!() }
}
pub trait VAsDeref { spec fn adv(&self) -> Option<Auth>; fn vas_deref(&self) -> (r: Option<&Auth>) ensures opt_auth(r) == self.adv(); }
impl VAsDeref for Option<Box<Auth>> {
    open spec fn adv(&self) -> Option<Auth> { match self { Some(b) => Some(**b), None => None } }
    fn vas_deref(&self) -> (r: Option<&Auth>) { match self { Some(b) => Some(&**b), None => None } }
}
pub open spec fn opt_auth(a: Option<&Auth>) -> Option<Auth> { match a { Some(x) => Some(*x), None => None } }
#[verifier::external_body]
pub struct Storage { _p: () }
impl Storage {
    /// ghost: the provider that guards this storage
    pub uninterp spec fn guard(&self) -> Option<Auth>;
}
/// an operation
#[verifier::external_body]
pub struct Handler { _p: () }
impl Handler {
    pub uninterp spec fn matches(&self, c: ReqContext) -> bool;
    pub uninterp spec fn handled(&self, c: ReqContext, s: Storage, r: S3Result<Response>) -> bool;
    #[verifier::external_body]
    pub fn is_match(&self, c: &ReqContext) -> (r: bool) ensures r == self.matches(*c) { unimplemented!() }
    /// C01: the storage is reached only through here, and only for an allowed request
    #[verifier::external_body]
    pub fn handle(&self, c: &mut ReqContext, s: &Storage) -> (r: S3Result<Response>)
        requires served(s.guard(), *old(c)),
        ensures self.handled(*old(c), *s, r),
    { unimplemented!() }
}
// ---------------------------------------------------------------- who is allowed
#[verifier::external_body]
pub struct File { _p: () }
/// the parsed form of a body (trusted here; the parser is C04)
pub uninterp spec fn form_of(body: Seq<u8>, boundary: Seq<u8>, fields: Seq<SPair>) -> bool;
#[verifier::external_body]
pub fn transform_multipart(b: IoBody, boundary: &[u8]) -> (r: Result<Multipart, IoError>)
    ensures r is Ok ==> form_of(b@, boundary@, r->Ok_0.fields.pv()), r is Err ==> b.broken() || bad_form(b@, boundary@),
{ unimplemented!() }
pub uninterp spec fn bad_form(body: Seq<u8>, boundary: Seq<u8>) -> bool;
/// what a chunk-signed body carries (C03)
pub uninterp spec fn chunked(body: Seq<u8>, seed: Seq<char>, t: AmzDate, region: Seq<char>, secret: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub struct AwsChunkedStream { _p: () }
impl View for AwsChunkedStream { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl AwsChunkedStream {
    #[verifier::external_body]
    pub fn new(b: IoBody, seed: Box<str>, t: AmzDate, region: Box<str>, secret: Box<str>) -> (r: AwsChunkedStream)
        ensures r@ == chunked(b@, seed@, t, region@, secret@)
    { unimplemented!() }
}
impl Body {
    #[verifier::external_body]
    pub fn wrap_stream(s: AwsChunkedStream) -> (r: Body) ensures r@ == s@ { unimplemented!() }
}
pub trait VIntoBoxStr: Sized { spec fn bsv(&self) -> Seq<char>; fn vinto_box_str(self) -> (r: Box<str>) ensures r@ == self.bsv(); }
impl VIntoBoxStr for String {
    open spec fn bsv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vinto_box_str(self) -> (r: Box<str>) { unimplemented!() }
}
impl VIntoBoxStr for &str {
    open spec fn bsv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vinto_box_str(self) -> (r: Box<str>) { unimplemented!() }
}
pub open spec fn hdrs(c: ReqContext) -> Seq<SPair> { c.headers.headers.pv() }
pub open spec fn qs_of(c: ReqContext) -> Seq<SPair> { match c.query_strings { Some(q) => q.qs.pv(), None => Seq::empty() } }
pub open spec fn ctx_inv(c: ReqContext) -> bool { c.headers.inv() && (c.query_strings is Some ==> c.query_strings.unwrap().inv()) }
/// everything but the body and the form
pub open spec fn same_request(o: ReqContext, n: ReqContext) -> bool {
    n.req == o.req && n.headers == o.headers && n.query_strings == o.query_strings && n.path == o.path && n.mime == o.mime
}
pub open spec fn carries_form(c: ReqContext) -> bool { c.req.meth()@ == "POST"@ && c.mime is Some && c.mime.unwrap().ty() == "multipart"@ && c.mime.unwrap().sub() == "form-data"@ }
pub open spec fn carries_query_signature(c: ReqContext) -> bool { c.query_strings is Some && !lookup_ok(qs_of(c), "X-Amz-Signature"@, None) }
/// the payload line of the canonical request
pub open spec fn payload_line(sha: Seq<char>, body: Seq<u8>) -> Seq<char> {
    if sha == "UNSIGNED-PAYLOAD"@ { "UNSIGNED-PAYLOAD"@ } else if sha == "STREAMING-AWS4-HMAC-SHA256-PAYLOAD"@ { "STREAMING-AWS4-HMAC-SHA256-PAYLOAD"@ } else { hexs(sha256(body)) }
}
pub open spec fn sha_form(sha: Seq<char>) -> bool { sha == "UNSIGNED-PAYLOAD"@ || sha == "STREAMING-AWS4-HMAC-SHA256-PAYLOAD"@ || sha256_form(sha) }
/// the parts a header signature is made of: the Authorization header x, the content hash sha, the date t, the signed header names, the access key k and its secret
pub open spec fn header_parts(a: Auth, o: ReqContext, x: Seq<char>, sha: Seq<char>, t: AmzDate, names: Seq<Seq<char>>, k: Seq<char>, secret: Seq<char>) -> bool {
    &&& lookup_ok(hdrs(o), "authorization"@, Some(x)) && auth_of(x) is Some
    &&& lookup_ok(hdrs(o), "x-amz-content-sha256"@, Some(sha)) && sha_form(sha)
    &&& lookup_ok(hdrs(o), "x-amz-date"@, Some(t.iso())) && t.inv()
    &&& strs_sorted(names) && names.to_multiset() == auth_of(x).unwrap().headers.to_multiset()
    &&& k == auth_of(x).unwrap().cred.akid && a.gives(k, secret)
    &&& url_decoded(o.req.uriv().pathv()) is Some
}
pub open spec fn header_signature(o: ReqContext, x: Seq<char>, sha: Seq<char>, t: AmzDate, names: Seq<Seq<char>>, secret: Seq<char>) -> Seq<char> {
    let region = auth_of(x).unwrap().cred.region;
    signature(string_to_sign(canonical(o.req.meth()@, url_decoded(o.req.uriv().pathv()).unwrap(), qs_of(o), select(hdrs(o), names), payload_line(sha, o.body@)), t, region), secret, t, region)
}
/// the body handed on
pub open spec fn header_body(o: ReqContext, n: ReqContext, x: Seq<char>, sha: Seq<char>, t: AmzDate, secret: Seq<char>) -> bool {
    if sha == "STREAMING-AWS4-HMAC-SHA256-PAYLOAD"@ { n.body@ == chunked(o.body@, auth_of(x).unwrap().signature, t, auth_of(x).unwrap().cred.region, secret) } else { n.body@ == o.body@ }
}
/// C01: the Authorization header verifies, and the body handed on is the one that was signed
pub open spec fn header_signed(a: Auth, o: ReqContext, n: ReqContext) -> bool {
    exists|x: Seq<char>, sha: Seq<char>, t: AmzDate, names: Seq<Seq<char>>, k: Seq<char>, secret: Seq<char>|
        #![trigger lookup_ok(hdrs(o), "authorization"@, Some(x)), lookup_ok(hdrs(o), "x-amz-content-sha256"@, Some(sha)), lookup_ok(hdrs(o), "x-amz-date"@, Some(t.iso())), select(hdrs(o), names), a.gives(k, secret)]
        header_parts(a, o, x, sha, t, names, k, secret) && auth_of(x).unwrap().signature == header_signature(o, x, sha, t, names, secret) && header_body(o, n, x, sha, t, secret)
}
pub open spec fn header_mismatch(a: Auth, o: ReqContext) -> bool {
    exists|x: Seq<char>, sha: Seq<char>, t: AmzDate, names: Seq<Seq<char>>, k: Seq<char>, secret: Seq<char>|
        #![trigger lookup_ok(hdrs(o), "authorization"@, Some(x)), lookup_ok(hdrs(o), "x-amz-content-sha256"@, Some(sha)), lookup_ok(hdrs(o), "x-amz-date"@, Some(t.iso())), select(hdrs(o), names), a.gives(k, secret)]
        header_parts(a, o, x, sha, t, names, k, secret) && auth_of(x).unwrap().signature != header_signature(o, x, sha, t, names, secret)
}
pub open spec fn alive(p: PresignedUrl<'_>) -> bool {
    exists|now: int| #[trigger] clock(now) && moment(p.amz_date) is Some && whole_seconds(now - moment(p.amz_date).unwrap()) <= p.expires
}
pub open spec fn presigned_parts(a: Auth, o: ReqContext, p: PresignedUrl<'_>, secret: Seq<char>) -> bool {
    &&& presigned_ok(qs_of(o), p) && strs_sorted(views_ref(p.signed_headers@)) && p.amz_date.inv()
    &&& a.gives(p.credential@.akid, secret)
    &&& url_decoded(o.req.uriv().pathv()) is Some
}
pub open spec fn presigned_signature(o: ReqContext, p: PresignedUrl<'_>, secret: Seq<char>) -> Seq<char> {
    signature(string_to_sign(canonical(o.req.meth()@, url_decoded(o.req.uriv().pathv()).unwrap(), unsigned_pairs(qs_of(o)), select(hdrs(o), views_ref(p.signed_headers@)), "UNSIGNED-PAYLOAD"@), p.amz_date, p.credential@.region), secret, p.amz_date, p.credential@.region)
}
pub open spec fn presigned_signed(a: Auth, o: ReqContext, n: ReqContext) -> bool {
    n.body == o.body && exists|p: PresignedUrl<'_>, k: Seq<char>, secret: Seq<char>| #![trigger presigned_ok(qs_of(o), p), a.gives(k, secret)]
        k == p.credential@.akid && presigned_parts(a, o, p, secret) && p.signature@ == presigned_signature(o, p, secret) && alive(p)
}
pub open spec fn presigned_mismatch(a: Auth, o: ReqContext) -> bool {
    exists|p: PresignedUrl<'_>, k: Seq<char>, secret: Seq<char>| #![trigger presigned_ok(qs_of(o), p), a.gives(k, secret)]
        k == p.credential@.akid && presigned_parts(a, o, p, secret) && p.signature@ != presigned_signature(o, p, secret)
}
/// the fields a signed form needs: the policy p, the credential c, the date t, the signature g; k is its access key
pub open spec fn form_parts(a: Auth, m: Multipart, p: Seq<char>, c: Seq<char>, t: AmzDate, g: Seq<char>, k: Seq<char>, secret: Seq<char>) -> bool {
    &&& m.field("policy"@, Some(p)) && base64(encode_utf8(p)) is Some
    &&& m.field("x-amz-algorithm"@, Some("AWS4-HMAC-SHA256"@))
    &&& m.field("x-amz-credential"@, Some(c)) && cred_of(c) is Some && cred_of(c).unwrap().1.len() == 0
    &&& m.field("x-amz-date"@, Some(t.iso())) && t.inv()
    &&& m.field("x-amz-signature"@, Some(g))
    &&& k == cred_of(c).unwrap().0.akid && a.gives(k, secret)
}
pub open spec fn form_signature(p: Seq<char>, c: Seq<char>, t: AmzDate, secret: Seq<char>) -> Seq<char> { signature(p, secret, t, cred_of(c).unwrap().0.region) }
pub open spec fn form_mismatch(a: Auth, m: Multipart) -> bool {
    exists|p: Seq<char>, c: Seq<char>, t: AmzDate, g: Seq<char>, k: Seq<char>, secret: Seq<char>|
        #![trigger m.field("policy"@, Some(p)), m.field("x-amz-credential"@, Some(c)), m.field("x-amz-date"@, Some(t.iso())), m.field("x-amz-signature"@, Some(g)), a.gives(k, secret)]
        form_parts(a, m, p, c, t, g, k, secret) && g != form_signature(p, c, t, secret)
}
/// when the policy of a form expires
pub open spec fn policy_expiration(policy: Seq<char>) -> Option<int> {
    match base64(encode_utf8(policy)) { None => None, Some(b) => match json(b) { None => None, Some(v) => match v.member("expiration"@) { None => None, Some(x) => match x.text() { None => None, Some(s) => rfc3339(s) } } } }
}
pub open spec fn policy_alive(policy: Seq<char>) -> bool {
    exists|now: int| #[trigger] clock(now) && policy_expiration(policy) is Some && now <= policy_expiration(policy).unwrap()
}
pub open spec fn boundary_of(o: ReqContext) -> Option<Seq<char>> { o.mime.unwrap().param("boundary"@) }
pub open spec fn form_ok(a: Auth, m: Multipart) -> bool {
    exists|p: Seq<char>, c: Seq<char>, t: AmzDate, g: Seq<char>, k: Seq<char>, secret: Seq<char>|
        #![trigger m.field("policy"@, Some(p)), m.field("x-amz-credential"@, Some(c)), m.field("x-amz-date"@, Some(t.iso())), m.field("x-amz-signature"@, Some(g)), a.gives(k, secret)]
        form_parts(a, m, p, c, t, g, k, secret) && g == form_signature(p, c, t, secret) && policy_alive(p)
}
pub open spec fn form_signed(a: Auth, o: ReqContext, n: ReqContext) -> bool {
    n.multipart is Some && boundary_of(o) is Some && form_of(o.body@, encode_utf8(boundary_of(o).unwrap()), n.multipart.unwrap().fields.pv()) && form_ok(a, n.multipart.unwrap())
}
/// C01, C17: what check_signature lets through
pub open spec fn allowed(a: Option<Auth>, o: ReqContext, n: ReqContext) -> bool {
    same_request(o, n) && if carries_form(o) { a is Some && form_signed(a.unwrap(), o, n) } else {
        n.multipart == o.multipart && if carries_query_signature(o) { a is Some && presigned_signed(a.unwrap(), o, n) } else {
            match a { Some(x) => header_signed(x, o, n), None => lookup_ok(hdrs(o), "authorization"@, None) && n.body == o.body }
        }
    }
}
/// the context a handler sees comes from an allowed request
pub open spec fn served(a: Option<Auth>, n: ReqContext) -> bool { exists|o: ReqContext| #[trigger] allowed(a, o, n) }
// ---------------------------------------------------------------- why a request is refused
pub open spec fn header_refused(a: Option<Auth>, o: ReqContext, e: S3Error) -> bool {
    ||| a is Some && e.code() is AccessDenied && lookup_ok(hdrs(o), "authorization"@, None)
    ||| a is None && e.code() is NotSupported && exists|x: Seq<char>| #[trigger] lookup_ok(hdrs(o), "authorization"@, Some(x))
    ||| e.code() is InvalidRequest && exists|x: Seq<char>| #[trigger] lookup_ok(hdrs(o), "authorization"@, Some(x)) && auth_of(x) is None
    ||| e.code() is InvalidRequest && lookup_ok(hdrs(o), "x-amz-content-sha256"@, None)
    ||| e.code() is XAmzContentSHA256Mismatch && exists|x: Seq<char>| #[trigger] lookup_ok(hdrs(o), "x-amz-content-sha256"@, Some(x)) && !sha_form(x)
    ||| e.code() is InvalidRequest && lookup_ok(hdrs(o), "x-amz-date"@, None)
    ||| e.code() is InvalidRequest && exists|x: Seq<char>| #[trigger] lookup_ok(hdrs(o), "x-amz-date"@, Some(x)) && !iso_form(x)
    ||| a is Some && exists|x: Seq<char>| #[trigger] lookup_ok(hdrs(o), "authorization"@, Some(x)) && auth_of(x) is Some && a.unwrap().refuses(auth_of(x).unwrap().cred.akid)
    ||| e.code() is InvalidURI && url_decoded(o.req.uriv().pathv()) is None
    ||| e.code() is InvalidRequest && o.body.broken()
    ||| a is Some && e.code() is SignatureDoesNotMatch && header_mismatch(a.unwrap(), o)
}
pub open spec fn presigned_refused(a: Option<Auth>, o: ReqContext, e: S3Error) -> bool {
    ||| a is None && e.code() is NotSupported
    ||| e.code() is InvalidRequest && presigned_bad(qs_of(o))
    ||| e.code() is XAmzContentSHA256Mismatch && exists|x: Seq<char>| #[trigger] lookup_ok(hdrs(o), "x-amz-content-sha256"@, Some(x)) && !sha_form(x)
    ||| a is Some && exists|p: PresignedUrl<'_>| #[trigger] presigned_ok(qs_of(o), p) && a.unwrap().refuses(p.credential@.akid)
    ||| e.code() is InvalidURI && url_decoded(o.req.uriv().pathv()) is None
    ||| a is Some && e.code() is SignatureDoesNotMatch && presigned_mismatch(a.unwrap(), o)
    ||| e.code() is AccessDenied && exists|p: PresignedUrl<'_>| #[trigger] presigned_ok(qs_of(o), p) && p.amz_date.inv() && expired(p)
}
pub open spec fn expired(p: PresignedUrl<'_>) -> bool {
    moment(p.amz_date) is None || exists|now: int| #[trigger] clock(now) && whole_seconds(now - moment(p.amz_date).unwrap()) > p.expires
}
pub open spec fn form_refused(a: Option<Auth>, o: ReqContext, e: S3Error) -> bool {
    ||| a is None && e.code() is NotSupported
    ||| e.code() is InvalidRequest && (o.body.broken() || boundary_of(o) is None || bad_form(o.body@, encode_utf8(boundary_of(o).unwrap())))
    ||| boundary_of(o) is Some && exists|m: Multipart| #[trigger] form_of(o.body@, encode_utf8(boundary_of(o).unwrap()), m.fields.pv()) && form_bad(a, m, e)
}
pub open spec fn form_bad(a: Option<Auth>, m: Multipart, e: S3Error) -> bool {
    ||| e.code() is InvalidRequest && (m.field("policy"@, None) || m.field("x-amz-algorithm"@, None) || m.field("x-amz-credential"@, None) || m.field("x-amz-date"@, None) || m.field("x-amz-signature"@, None))
    ||| e.code() is InvalidRequest && exists|x: Seq<char>| #[trigger] m.field("policy"@, Some(x)) && base64(encode_utf8(x)) is None
    ||| e.code() is NotSupported && exists|x: Seq<char>| #[trigger] m.field("x-amz-algorithm"@, Some(x)) && x != "AWS4-HMAC-SHA256"@
    ||| e.code() is InvalidRequest && exists|x: Seq<char>| #[trigger] m.field("x-amz-credential"@, Some(x)) && (cred_of(x) is None || cred_of(x).unwrap().1.len() > 0)
    ||| e.code() is InvalidRequest && exists|x: Seq<char>| #[trigger] m.field("x-amz-date"@, Some(x)) && !iso_form(x)
    ||| a is Some && exists|x: Seq<char>| #[trigger] m.field("x-amz-credential"@, Some(x)) && cred_of(x) is Some && a.unwrap().refuses(cred_of(x).unwrap().0.akid)
    ||| a is Some && e.code() is SignatureDoesNotMatch && form_mismatch(a.unwrap(), m)
    ||| exists|x: Seq<char>| #[trigger] m.field("policy"@, Some(x)) && policy_refused(x, e)
}
pub open spec fn policy_refused(policy: Seq<char>, e: S3Error) -> bool {
    ||| e.code() is InvalidPolicyDocument && policy_expiration(policy) is None
    ||| e.code() is AccessDenied && policy_expiration(policy) is Some && exists|now: int| #[trigger] clock(now) && now > policy_expiration(policy).unwrap()
}
/// flat forms of the refusals (for the solver)
pub proof fn lemma_form_refused(a: Option<Auth>, o: ReqContext)
    requires boundary_of(o) is Some,
    ensures
        forall|m: Multipart, x: Seq<char>, e: S3Error| #![trigger m.field("x-amz-algorithm"@, Some(x)), form_refused(a, o, e)]
            form_of(o.body@, encode_utf8(boundary_of(o).unwrap()), m.fields.pv()) && m.field("x-amz-algorithm"@, Some(x)) && x != "AWS4-HMAC-SHA256"@ && e.code() is NotSupported ==> form_refused(a, o, e),
        forall|m: Multipart, x: Seq<char>, k: Seq<char>, e: S3Error| #![trigger m.field("x-amz-credential"@, Some(x)), a.unwrap().refuses(k), form_refused(a, o, e)]
            form_of(o.body@, encode_utf8(boundary_of(o).unwrap()), m.fields.pv()) && m.field("x-amz-credential"@, Some(x)) && a is Some && cred_of(x) is Some && k == cred_of(x).unwrap().0.akid && a.unwrap().refuses(k) ==> form_refused(a, o, e),
        forall|m: Multipart, x: Seq<char>, e: S3Error| #![trigger m.field("policy"@, Some(x)), policy_refused(x, e)]
            form_of(o.body@, encode_utf8(boundary_of(o).unwrap()), m.fields.pv()) && m.field("policy"@, Some(x)) && policy_refused(x, e) ==> form_refused(a, o, e),
        forall|m: Multipart, p: Seq<char>, c: Seq<char>, t: AmzDate, g: Seq<char>, k: Seq<char>, secret: Seq<char>, e: S3Error|
            #![trigger m.field("policy"@, Some(p)), m.field("x-amz-credential"@, Some(c)), m.field("x-amz-date"@, Some(t.iso())), m.field("x-amz-signature"@, Some(g)), a.unwrap().gives(k, secret), form_refused(a, o, e)]
            form_of(o.body@, encode_utf8(boundary_of(o).unwrap()), m.fields.pv()) && a is Some && form_parts(a.unwrap(), m, p, c, t, g, k, secret) && g != form_signature(p, c, t, secret) && e.code() is SignatureDoesNotMatch ==> form_refused(a, o, e),
{
    hide(canonical); hide(signature); hide(cred_of); hide(iso_form); hide(field_of); hide(policy_refused); hide(encode_utf8);
    assert forall|m: Multipart, e: S3Error| form_of(o.body@, encode_utf8(boundary_of(o).unwrap()), m.fields.pv()) && #[trigger] form_bad(a, m, e) implies form_refused(a, o, e) by {}
    assert forall|m: Multipart, x: Seq<char>, e: S3Error| #![trigger m.field("x-amz-algorithm"@, Some(x)), form_refused(a, o, e)]
        form_of(o.body@, encode_utf8(boundary_of(o).unwrap()), m.fields.pv()) && m.field("x-amz-algorithm"@, Some(x)) && x != "AWS4-HMAC-SHA256"@ && e.code() is NotSupported implies form_refused(a, o, e) by { assert(form_bad(a, m, e)); }
    assert forall|m: Multipart, x: Seq<char>, k: Seq<char>, e: S3Error| #![trigger m.field("x-amz-credential"@, Some(x)), a.unwrap().refuses(k), form_refused(a, o, e)]
        form_of(o.body@, encode_utf8(boundary_of(o).unwrap()), m.fields.pv()) && m.field("x-amz-credential"@, Some(x)) && a is Some && cred_of(x) is Some && k == cred_of(x).unwrap().0.akid && a.unwrap().refuses(k) implies form_refused(a, o, e) by { assert(form_bad(a, m, e)); }
    assert forall|m: Multipart, x: Seq<char>, e: S3Error| #![trigger m.field("policy"@, Some(x)), policy_refused(x, e)]
        form_of(o.body@, encode_utf8(boundary_of(o).unwrap()), m.fields.pv()) && m.field("policy"@, Some(x)) && policy_refused(x, e) implies form_refused(a, o, e) by { assert(form_bad(a, m, e)); }
    assert forall|m: Multipart, p: Seq<char>, c: Seq<char>, t: AmzDate, g: Seq<char>, k: Seq<char>, secret: Seq<char>, e: S3Error|
        #![trigger m.field("policy"@, Some(p)), m.field("x-amz-credential"@, Some(c)), m.field("x-amz-date"@, Some(t.iso())), m.field("x-amz-signature"@, Some(g)), a.unwrap().gives(k, secret), form_refused(a, o, e)]
        form_of(o.body@, encode_utf8(boundary_of(o).unwrap()), m.fields.pv()) && a is Some && form_parts(a.unwrap(), m, p, c, t, g, k, secret) && g != form_signature(p, c, t, secret) && e.code() is SignatureDoesNotMatch implies form_refused(a, o, e) by { assert(form_mismatch(a.unwrap(), m)); assert(form_bad(a, m, e)); }
}
pub open spec fn refused(a: Option<Auth>, o: ReqContext, e: S3Error) -> bool {
    if carries_form(o) { form_refused(a, o, e) } else if carries_query_signature(o) { presigned_refused(a, o, e) } else { header_refused(a, o, e) }
}
impl OrderedQs {
//@ fn src/data_structures/ordered_qs.rs OrderedQs=AsRef::as_ref
//@ method as_ref as_slice
//@ sig pub fn as_ref(&self) -> (r: &[(String, String)])
//@ spec
    ensures r@ == self.qs@,
//@ text
}
pub fn vas_ref<'a>(q: &'a OrderedQs) -> (r: &'a [(String, String)]) ensures r@ == q.qs@ { q.as_ref() }
impl<'a> S3Path<'a> {
//@ fn src/path.rs S3Path::is_object
//@ sig pub fn is_object(&self) -> (r: bool)
//@ spec
    ensures r == (self is Object),
//@ fn src/path.rs S3Path::is_bucket
//@ sig pub fn is_bucket(&self) -> (r: bool)
//@ spec
    ensures r == (self is Bucket),
//@ fn src/path.rs S3Path::is_root
//@ sig pub fn is_root(&self) -> (r: bool)
//@ spec
    ensures r == (self is Root),
//@ text
}
impl ParseS3PathError {
//@ fn src/path.rs ParseS3PathError::kind
//@ sig pub fn kind(&self) -> (r: &S3PathErrorKind)
//@ spec
    ensures *r == self.kind,
//@ text
}
/// C13: the error code of a path
pub open spec fn path_code(k: S3PathErrorKind, c: S3ErrorCode) -> bool {
    match k { S3PathErrorKind::InvalidPath => c is InvalidURI, S3PathErrorKind::InvalidBucketName => c is InvalidBucketName, S3PathErrorKind::KeyTooLong => c is KeyTooLongError }
}
pub open spec fn path_refused(p: Seq<char>, c: S3ErrorCode) -> bool { exists|e: ParseS3PathError| #[trigger] path_spec(p, Err::<S3Path<'_>, ParseS3PathError>(e)) && path_code(e.kind, c) }
//@ fn src/service.rs decode_uri_path
//@ comb map_err result
//@ sig pub fn decode_uri_path(req: &Request) -> (r: S3Result<String>)
//@ spec
    ensures match r { Ok(s) => url_decoded(req.uriv().pathv()) == Some(s@), Err(e) => url_decoded(req.uriv().pathv()) is None && e.code() is InvalidURI },
//@ fn src/service.rs extract_s3_path
//@ sig pub fn extract_s3_path<'a>(uri_path: &'a str) -> (r: S3Result<S3Path<'a>>)
//@ spec
    ensures match r { Ok(p) => path_spec(uri_path@, Ok::<S3Path<'a>, ParseS3PathError>(p)), Err(e) => path_refused(uri_path@, e.code()) },
//@ fn src/service.rs extract_headers
//@ sig pub fn extract_headers<'a>(req: &'a Request) -> (r: S3Result<OrderedHeaders<'a>>)
//@ spec
    ensures match r {
        Ok(h) => h.inv() && headers_of(*req, h.headers.pv()),
        Err(e) => e.code() is InvalidRequest && exists|i: int| 0 <= i < req.hm().fields().len() && (#[trigger] req.hm().fields()[i]).1.text() is None,
    },
//@ text
pub open spec fn headers_of(req: Request, h: Seq<SPair>) -> bool {
    (forall|i: int| 0 <= i < req.hm().fields().len() ==> (#[trigger] req.hm().fields()[i]).1.text() is Some) && h.to_multiset() == field_pairs(req.hm().fields()).to_multiset()
}
pub open spec fn query_of(req: Request, q: Option<OrderedQs>) -> bool {
    match q {
        None => req.uriv().queryv() is None,
        Some(q) => q.inv() && req.uriv().queryv() is Some && urlencoded(req.uriv().queryv().unwrap()) is Some && q.qs.pv().to_multiset() == urlencoded(req.uriv().queryv().unwrap()).unwrap().to_multiset(),
    }
}
//@ fn src/service.rs extract_qs
//@ sig pub fn extract_qs(req: &Request) -> (r: S3Result<Option<OrderedQs>>)
//@ comb map result
//@ spec
    ensures match r {
        Ok(q) => query_of(*req, q),
        Err(e) => e.code() is InvalidRequest && req.uriv().queryv() is Some && urlencoded(req.uriv().queryv().unwrap()) is None,
    },
//@ text
pub open spec fn mime_of_headers(h: Seq<SPair>, m: Option<Mime>) -> bool {
    match m { None => lookup_ok(h, "content-type"@, None), Some(m) => exists|x: Seq<char>| #[trigger] lookup_ok(h, "content-type"@, Some(x)) && mime_of(x) == Some(m) }
}
//@ fn src/service.rs extract_mime
//@ method parse vparse_t
//@ comb map result
//@ sig pub fn extract_mime(headers: &OrderedHeaders<'_>) -> (r: S3Result<Option<Mime>>)
//@ spec
    requires headers.inv(),
    ensures match r {
        Ok(m) => mime_of_headers(headers.headers.pv(), m),
        Err(e) => e.code() is InvalidRequest && exists|x: Seq<char>| #[trigger] lookup_ok(headers.headers.pv(), "content-type"@, Some(x)) && mime_of(x) is None,
    },
//@ text
pub proof fn lemma_sha_words()
    ensures "UNSIGNED-PAYLOAD"@ != "STREAMING-AWS4-HMAC-SHA256-PAYLOAD"@, !sha256_form("UNSIGNED-PAYLOAD"@), !sha256_form("STREAMING-AWS4-HMAC-SHA256-PAYLOAD"@),
{
    reveal_strlit("UNSIGNED-PAYLOAD"); reveal_strlit("STREAMING-AWS4-HMAC-SHA256-PAYLOAD");
    assert("UNSIGNED-PAYLOAD"@.len() == 16); assert("STREAMING-AWS4-HMAC-SHA256-PAYLOAD"@.len() == 34);
}
pub open spec fn sha_of(s: Seq<char>, a: AmzContentSha256<'_>) -> bool {
    sha_form(s) && (a is UnsignedPayload <==> s == "UNSIGNED-PAYLOAD"@) && (a is MultipleChunks <==> s == "STREAMING-AWS4-HMAC-SHA256-PAYLOAD"@)
}
//@ fn src/service.rs extract_amz_content_sha256
//@ comb map result
//@ sig pub fn extract_amz_content_sha256<'a>(headers: &OrderedHeaders<'a>) -> (r: S3Result<Option<AmzContentSha256<'a>>>)
//@ spec
    requires headers.inv(),
    ensures match r {
        Ok(None) => lookup_ok(headers.headers.pv(), "x-amz-content-sha256"@, None),
        Ok(Some(a)) => exists|x: Seq<char>| #[trigger] lookup_ok(headers.headers.pv(), "x-amz-content-sha256"@, Some(x)) && sha_of(x, a),
        Err(e) => e.code() is XAmzContentSHA256Mismatch && exists|x: Seq<char>| #[trigger] lookup_ok(headers.headers.pv(), "x-amz-content-sha256"@, Some(x)) && !sha_form(x),
    },
//@ hint start
    proof { lemma_sha_words(); }
//@ fn src/service.rs extract_authorization_v4
//@ comb map result
//@ sig pub fn extract_authorization_v4<'a>(headers: &OrderedHeaders<'a>) -> (r: S3Result<Option<AuthorizationV4<'a>>>)
//@ spec
    requires headers.inv(),
    ensures match r {
        Ok(None) => lookup_ok(headers.headers.pv(), "authorization"@, None),
        Ok(Some(a)) => exists|x: Seq<char>| #[trigger] lookup_ok(headers.headers.pv(), "authorization"@, Some(x)) && auth_of(x) == Some(a@),
        Err(e) => e.code() is InvalidRequest && exists|x: Seq<char>| #[trigger] lookup_ok(headers.headers.pv(), "authorization"@, Some(x)) && auth_of(x) is None,
    },
//@ fn src/service.rs extract_amz_date
//@ comb map result
//@ sig pub fn extract_amz_date(headers: &OrderedHeaders<'_>) -> (r: S3Result<Option<AmzDate>>)
//@ spec
    requires headers.inv(),
    ensures match r {
        Ok(None) => lookup_ok(headers.headers.pv(), "x-amz-date"@, None),
        Ok(Some(t)) => t.inv() && lookup_ok(headers.headers.pv(), "x-amz-date"@, Some(t.iso())),
        Err(e) => e.code() is InvalidRequest && exists|x: Seq<char>| #[trigger] lookup_ok(headers.headers.pv(), "x-amz-date"@, Some(x)) && !iso_form(x),
    },
//@ fn src/service.rs take_io_body
//@ sig pub fn take_io_body(body: &mut Body) -> (r: IoBody)
//@ spec
    ensures r@ == old(body)@, r.broken() == old(body).broken(),
//@ closure 0
|try_chunk: Result<Bytes, HyperError>| -> (o: Result<Bytes, IoError>) ensures match try_chunk { Ok(b) => o == Ok::<Bytes, IoError>(b), Err(_) => o is Err }
//@ comb map skip
//@ fn src/service.rs fetch_secret_key
//@ sig pub fn fetch_secret_key(auth: &Auth, access_key: &str) -> (r: S3Result<String>)
//@ spec
    ensures match r { Ok(s) => auth.gives(access_key@, s@), Err(_) => auth.refuses(access_key@) },

//@ text
pub proof fn lemma_vpairs(s: Seq<(String, String)>) ensures vpairs(s) == pairs_own(s) { assert(vpairs(s) =~= pairs_own(s)); }
pub open spec fn five(m: Multipart, p: Seq<char>, a: Seq<char>, c: Seq<char>, d: Seq<char>, s: Seq<char>) -> bool {
    m.field("policy"@, Some(p)) && m.field("x-amz-algorithm"@, Some(a)) && m.field("x-amz-credential"@, Some(c)) && m.field("x-amz-date"@, Some(d)) && m.field("x-amz-signature"@, Some(s))
}
//@ fn src/service.rs check_post_signature/find_info
//@ question * option
//@ sig pub fn post_find_info<'a>(multipart: &'a Multipart) -> (r: Option<(&'a str, &'a str, &'a str, &'a str, &'a str)>)
//@ spec
    ensures match r {
        Some((p, a, c, d, s)) => five(*multipart, p@, a@, c@, d@, s@),
        None => multipart.field("policy"@, None) || multipart.field("x-amz-algorithm"@, None) || multipart.field("x-amz-credential"@, None) || multipart.field("x-amz-date"@, None) || multipart.field("x-amz-signature"@, None),
    },
//@ fn src/service.rs check_post_policy_expiration
//@ question 0|1 option
//@ comb and_then option
//@ comb ok_or_else option
//@ sig pub fn check_post_policy_expiration(policy: &str) -> (r: S3Result<()>)
//@ spec
    ensures match r { Ok(_) => policy_alive(policy@), Err(e) => policy_refused(policy@, e) },
//@ fn src/utils/crypto.rs is_base64_encoded
//@ sig pub fn is_base64_encoded(bytes: &[u8]) -> (r: bool)
//@ spec
    ensures r == (base64(bytes@) is Some),
//@ fn src/service.rs check_post_signature
//@ alias find_info post_find_info
//@ comb unwrap_or_else option
//@ comb ok_or_else option
//@ comb map_err result
//@ question * same
//@ sig pub fn check_post_signature(ctx: &mut ReqContext<'_>, auth: Option<&Auth>) -> (r: S3Result<()>)
//@ spec
    requires carries_form(*old(ctx)), ctx_inv(*old(ctx)),
    ensures
        same_request(*old(ctx), *final(ctx)),
        match r {
            Ok(_) => auth is Some && form_signed(*auth.unwrap(), *old(ctx), *final(ctx)),
            Err(e) => form_refused(opt_auth(auth), *old(ctx), e),
        },
//@ nostrlit
//@ hide canonical signature string_to_sign lookup_ok select auth_of cred_of strs_sorted iso_form sha256_form moment field_of presigned_bad policy_expiration policy_alive policy_refused encode_utf8
//@ hint start
    proof {
        assert(ctx.mime is Some ==> boundary_of(*ctx) == ctx.mime.unwrap().param("boundary"@));
        if boundary_of(*ctx) is Some { lemma_form_refused(opt_auth(auth), *ctx); }
        assert(hdrs(*ctx) == ctx.headers.headers.pv());
        if ctx.query_strings is Some { lemma_vpairs(ctx.query_strings.unwrap().qs@); }
        assert(ctx.query_strings is Some ==> qs_of(*ctx) == ctx.query_strings.unwrap().qs.pv());
        assert(auth is Some ==> opt_auth(auth) == Some(*auth.unwrap()) && opt_auth(auth).unwrap() == *auth.unwrap());
    }
//@ fn src/service.rs check_presigned_url
//@ comb unwrap_or_else option
//@ comb map_or option
//@ comb map option
//@ comb map_err result
//@ question * same
//@ sig pub fn check_presigned_url(ctx: &mut ReqContext<'_>, auth: Option<&Auth>) -> (r: S3Result<()>)
//@ spec
    requires carries_query_signature(*old(ctx)), ctx_inv(*old(ctx)),
    ensures
        *final(ctx) == *old(ctx),
        match r {
            Ok(_) => auth is Some && presigned_signed(*auth.unwrap(), *old(ctx), *final(ctx)),
            Err(e) => presigned_refused(opt_auth(auth), *old(ctx), e),
        },
//@ nostrlit
//@ hide canonical signature string_to_sign lookup_ok select auth_of cred_of strs_sorted iso_form sha256_form moment field_of presigned_bad policy_expiration policy_alive policy_refused encode_utf8
//@ hint start
    proof {
        assert(hdrs(*ctx) == ctx.headers.headers.pv());
        if ctx.query_strings is Some { lemma_vpairs(ctx.query_strings.unwrap().qs@); }
        assert(ctx.query_strings is Some ==> qs_of(*ctx) == ctx.query_strings.unwrap().qs.pv());
        assert(auth is Some ==> opt_auth(auth) == Some(*auth.unwrap()) && opt_auth(auth).unwrap() == *auth.unwrap());
    }
//@ fn src/service.rs check_header_auth
//@ comb ok_or_else option
//@ comb map_or option
//@ comb map_err result
//@ question * same
//@ alias AsRef::as_ref vas_ref
//@ sig pub fn check_header_auth(ctx: &mut ReqContext<'_>, auth: Option<&Auth>) -> (r: S3Result<()>)
//@ spec
    requires ctx_inv(*old(ctx)),
    ensures
        same_request(*old(ctx), *final(ctx)) && final(ctx).multipart == old(ctx).multipart,
        match r {
            Ok(_) => match auth { Some(a) => header_signed(*a, *old(ctx), *final(ctx)), None => lookup_ok(hdrs(*old(ctx)), "authorization"@, None) && final(ctx).body == old(ctx).body },
            Err(e) => header_refused(opt_auth(auth), *old(ctx), e),
        },
//@ nostrlit
//@ hide canonical signature string_to_sign lookup_ok select auth_of cred_of strs_sorted iso_form sha256_form moment field_of presigned_bad policy_expiration policy_alive policy_refused encode_utf8
//@ hint start
    proof {
        lemma_sha_words();
        axiom_sha256_empty();
        assert forall|q: Seq<(String, String)>| q.len() == 0 implies #[trigger] vpairs(q) == Seq::<SPair>::empty() by { assert(vpairs(q) =~= Seq::<SPair>::empty()); }
        assert forall|b: Seq<u8>| #[trigger] b.len() == 0 implies b == Seq::<u8>::empty() by { assert(b =~= Seq::<u8>::empty()); }
        assert(hdrs(*ctx) == ctx.headers.headers.pv());
        if ctx.query_strings is Some { lemma_vpairs(ctx.query_strings.unwrap().qs@); }
        assert(ctx.query_strings is Some ==> qs_of(*ctx) == ctx.query_strings.unwrap().qs.pv());
        assert(auth is Some ==> opt_auth(auth) == Some(*auth.unwrap()) && opt_auth(auth).unwrap() == *auth.unwrap());
    }
//@ fn src/service.rs check_signature
//@ sig pub fn check_signature(ctx: &mut ReqContext<'_>, auth: Option<&Auth>) -> (r: S3Result<()>)
//@ spec
    requires ctx_inv(*old(ctx)),
    ensures
        match r {
            Ok(_) => allowed(opt_auth(auth), *old(ctx), *final(ctx)),
            Err(e) => refused(opt_auth(auth), *old(ctx), e),
        },
//@ text
// ---------------------------------------------------------------- routing
/// the sub-resources of the S3 API this server does not implement
pub open spec fn documented_sub_resource(x: Seq<char>) -> bool {
    ||| x == "accelerate"@ || x == "acl"@ || x == "analytics"@ || x == "attributes"@ || x == "cors"@ || x == "encryption"@ || x == "intelligent-tiering"@ || x == "inventory"@
    ||| x == "legal-hold"@ || x == "lifecycle"@ || x == "logging"@ || x == "metrics"@ || x == "notification"@ || x == "object-lock"@ || x == "ownershipControls"@ || x == "policy"@
    ||| x == "policyStatus"@ || x == "publicAccessBlock"@ || x == "replication"@ || x == "requestPayment"@ || x == "restore"@ || x == "retention"@ || x == "select"@ || x == "tagging"@
    ||| x == "torrent"@ || x == "versionId"@ || x == "versioning"@ || x == "versions"@ || x == "website"@
}
pub open spec fn has_param(c: ReqContext, x: Seq<char>) -> bool { c.query_strings is Some && !lookup_ok(qs_of(c), x, None) }
pub open spec fn has_header(c: ReqContext, x: Seq<char>) -> bool { !lookup_ok(hdrs(c), x, None) }
pub open spec fn names_sub_resource(c: ReqContext) -> bool { exists|x: Seq<char>| #[trigger] documented_sub_resource(x) && has_param(c, x) }
pub open spec fn unsupported(c: ReqContext) -> bool {
    ||| names_sub_resource(c)
    ||| has_param(c, "uploads"@) && c.req.meth()@ != "POST"@
    ||| has_param(c, "uploadId"@) && c.req.meth()@ != "POST"@ && (c.req.meth()@ != "PUT"@ || has_header(c, "x-amz-copy-source"@))
}
pub proof fn lemma_documented()
    ensures
        forall|x: Seq<char>| #[trigger] documented_sub_resource(x) <==> in_UNSUPPORTED_SUB_RESOURCES(x),
        forall|x: Seq<char>| #[trigger] in_UNSUPPORTED_SUB_RESOURCES(x) ==> documented_sub_resource(x),
{}
pub proof fn lemma_allowed()
    ensures
        forall|a: Option<Auth>, o: ReqContext, n: ReqContext| #[trigger] allowed(a, o, n) ==> same_request(o, n),
        forall|a: Option<Auth>, o: ReqContext, n: ReqContext| #[trigger] allowed(a, o, n) && ctx_inv(o) ==> ctx_inv(n),
{}
//@ fn src/ops.rs is_unsupported_sub_resource
//@ sig pub fn is_unsupported_sub_resource(ctx: &ReqContext<'_>) -> (r: bool)
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ hide documented_sub_resource in_UNSUPPORTED_SUB_RESOURCES
//@ nostrlit
//@ spec
    requires ctx_inv(*ctx),
    ensures r == unsupported(*ctx),
//@ hint start
    proof {
        lemma_documented();
        if ctx.query_strings is Some { assert(qs_of(*ctx) == ctx.query_strings.unwrap().qs.pv()); }
        assert(hdrs(*ctx) == ctx.headers.headers.pv());
    }
//@ loop 0
    invariant
        0 <= it0.i() <= it0.v().len(),
        forall|j: int| 0 <= j < it0.v().len() ==> in_UNSUPPORTED_SUB_RESOURCES((#[trigger] it0.v()[j])@),
        forall|x: Seq<char>| #[trigger] in_UNSUPPORTED_SUB_RESOURCES(x) ==> exists|j: int| 0 <= j < it0.v().len() && (#[trigger] it0.v()[j])@ == x,
        forall|j: int| 0 <= j < it0.i() ==> lookup_ok(qs_of(*ctx), (#[trigger] it0.v()[j])@, None),
        !fnd0,
    decreases it0.v().len() - it0.i(),
//@ text
/// what the handlers see of a request
pub open spec fn request_ctx(q: Request, c: ReqContext) -> bool {
    &&& same_head(*c.req, q) && c.body == q.bodyv() && c.multipart is None
    &&& url_decoded(q.uriv().pathv()) is Some
    &&& path_spec(url_decoded(q.uriv().pathv()).unwrap(), Ok::<S3Path<'_>, ParseS3PathError>(c.path))
    &&& ctx_inv(c) && headers_of(q, hdrs(c)) && query_of(q, c.query_strings) && mime_of_headers(hdrs(c), c.mime)
}
/// a request that cannot be read
pub open spec fn unreadable(q: Request, e: S3ErrorCode) -> bool {
    ||| e is InvalidURI && url_decoded(q.uriv().pathv()) is None
    ||| url_decoded(q.uriv().pathv()) is Some && path_refused(url_decoded(q.uriv().pathv()).unwrap(), e)
    ||| e is InvalidRequest && exists|i: int| 0 <= i < q.hm().fields().len() && (#[trigger] q.hm().fields()[i]).1.text() is None
    ||| e is InvalidRequest && q.uriv().queryv() is Some && urlencoded(q.uriv().queryv().unwrap()) is None
    ||| e is InvalidRequest && exists|h: Seq<SPair>, x: Seq<char>| headers_of(q, h) && #[trigger] lookup_ok(h, "content-type"@, Some(x)) && mime_of(x) is None
}
/// a browser upload can only go to a bucket
pub open spec fn form_to_object(n: ReqContext) -> bool { n.req.meth()@ == "POST"@ && n.path is Object && n.multipart is Some }
/// C12: the first operation that takes the request answers it
pub open spec fn routed(s: S3Service, n: ReqContext, r: S3Result<Response>) -> bool {
    if form_to_object(n) { r is Err && r->Err_0.code() is MethodNotAllowed }
    else if unsupported(n) { r is Err && r->Err_0.code() is NotImplemented }
    else {
        ||| exists|i: int| 0 <= i < s.handlers@.len() && (#[trigger] s.handlers@[i]).matches(n) && (forall|j: int| 0 <= j < i ==> !(#[trigger] s.handlers@[j]).matches(n)) && s.handlers@[i].handled(n, *s.storage, r)
        ||| (forall|j: int| 0 <= j < s.handlers@.len() ==> !(#[trigger] s.handlers@[j]).matches(n)) && r is Err && r->Err_0.code() is NotSupported
    }
}
/// C01, C12: the answer to a request
pub open spec fn answered(s: S3Service, q: Request, r: S3Result<Response>) -> bool {
    ||| r is Err && unreadable(q, r->Err_0.code())
    ||| exists|o: ReqContext| request_ctx(q, o) && r is Err && #[trigger] refused(s.auth.adv(), o, r->Err_0)
    ||| exists|o: ReqContext, n: ReqContext| request_ctx(q, o) && #[trigger] allowed(s.auth.adv(), o, n) && routed(s, n, r)
}
impl S3Service {
//@ fn src/service.rs S3Service::handle
//@ sig pub fn handle(&self, req: Request) -> (r: S3Result<Response>)
//@ question * same
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ nostrlit
//@ hide allowed refused lookup_ok header_refused presigned_refused form_refused documented_sub_resource path_spec
//@ spec
    requires self.storage.guard() == self.auth.adv(),
    ensures answered(*self, req, r),
//@ hint start
    proof { lemma_allowed(); }
    let ghost old_req = req;
//@ loop 0
    invariant
        0 <= it0.i() <= it0.v().len(),
        it0.v() == self.handlers@,
        forall|j: int| 0 <= j < it0.i() ==> !(#[trigger] self.handlers@[j]).matches(ctx),
        exists|o: ReqContext| request_ctx(old_req, o) && #[trigger] allowed(self.auth.adv(), o, ctx),
        !form_to_object(ctx), !unsupported(ctx),
    decreases it0.v().len() - it0.i(),
//@ text
}
/// the error response of a refusal: its body carries the code and the message, its status is the one of the code
pub open spec fn responded(s: S3Service, q: Request, p: Response) -> bool {
    exists|r: S3Result<Response>| #[trigger] answered(s, q, r) && match r {
        Ok(x) => p == x,
        Err(e) => error_response(p, e.code(), e.msg()),
    }
}
impl S3Service {
//@ fn src/service.rs S3Service::hyper_call
//@ sig pub fn hyper_call(&self, req: Request) -> (r: Result<Response, BoxStdError>)
//@ question * BoxStdError::vfrom
//@ hide answered error_response
//@ nostrlit
//@ spec
    requires self.storage.guard() == self.auth.adv(),
    ensures r is Ok ==> responded(*self, req, r->Ok_0),
//@ text
}
