//@ include base.rs
//@ include hname.rs
//@ include http.rs
//@ rewrite mime :: TEXT_XML ==> mime_text_xml_()
//@ item src/errors.rs S3ErrorCode #[derive(Clone, Copy)]
//@ item src/errors.rs S3ErrorInner
//@ item src/errors.rs S3Error
//@ item src/errors.rs S3ErrorBuilder
//@ item src/errors.rs XmlErrorResponse
//@ item src/errors.rs ParseS3ErrorCodeError
//@ include codes.rs
//@ text
#[verifier::external_body]
pub struct SpanTrace { _p: () }
impl SpanTrace {
    #[verifier::external_body]
    pub fn capture() -> SpanTrace { unimplemented!() }
}
#[verifier::external_body]
pub struct Backtrace { _p: () }
impl Backtrace {
    #[verifier::external_body]
    pub fn new() -> Backtrace { unimplemented!() }
}
/// what an error message can be made of
pub trait VIntoString: Sized { spec fn sv(&self) -> Seq<char>; fn vinto_string(self) -> (r: String) ensures r@ == self.sv(); }
impl VIntoString for String { open spec fn sv(&self) -> Seq<char> { self@ } fn vinto_string(self) -> (r: String) { self } }
impl VIntoString for &str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vinto_string(self) -> (r: String) { unimplemented!() }
}
impl S3Error {
    pub open spec fn code(&self) -> S3ErrorCode { self.0.code }
    pub open spec fn msg(&self) -> Option<Seq<char>> { match self.0.message { Some(m) => Some(m@), None => None } }
}
impl S3ErrorBuilder {
    pub open spec fn code(&self) -> S3ErrorCode { self.0.code }
    pub open spec fn msg(&self) -> Option<Seq<char>> { match self.0.message { Some(m) => Some(m@), None => None } }
}
impl S3ErrorCode {
//@ fn src/errors.rs S3ErrorCode::as_status_code
//@ sig pub fn as_status_code(self) -> (r: Option<StatusCode>)
//@ spec
    ensures code_status(self, match r { Some(s) => s.0 as int, None => 500 }),
//@ fn src/errors.rs S3ErrorCode::as_static_str
//@ sig pub fn as_static_str(self) -> (r: &'static str)
//@ spec
    ensures r@ == code_name(self),
//@ fn src/errors.rs S3ErrorCode::parse_from_str
//@ sig pub fn parse_from_str<'a>(s: &'a str) -> (r: Result<Self, ParseS3ErrorCodeError<'a>>)
//@ spec
    ensures match r { Ok(c) => code_name(c) == s@, Err(_) => forall|c: S3ErrorCode| #[trigger] code_name(c) != s@ },
//@ text
}
impl S3ErrorBuilder {
//@ fn src/errors.rs S3ErrorBuilder::message
//@ method into vinto_string
//@ sig pub fn message<T: VIntoString>(self, msg: T) -> (r: Self)
//@ spec
    ensures r.code() == self.code(), r.msg() == Some(msg.sv()),
//@ fn src/errors.rs S3ErrorBuilder::source
//@ method into vinto_box
//@ sig pub fn source<T>(self, e: T) -> (r: Self)
//@ spec
    ensures r.code() == self.code(), r.msg() == self.msg(),
//@ fn src/errors.rs S3ErrorBuilder::capture_span_trace
//@ sig pub fn capture_span_trace(self) -> (r: Self)
//@ spec
    ensures r.code() == self.code(), r.msg() == self.msg(),
//@ fn src/errors.rs S3ErrorBuilder::capture_backtrace
//@ sig pub fn capture_backtrace(self) -> (r: Self)
//@ spec
    ensures r.code() == self.code(), r.msg() == self.msg(),
//@ fn src/errors.rs S3ErrorBuilder::finish
//@ sig pub fn finish(self) -> (r: S3Error)
//@ spec
    ensures r.code() == self.code(), r.msg() == self.msg(),
//@ text
}
impl S3Error {
//@ fn src/errors.rs S3Error::from_code
//@ sig pub fn from_code(code: S3ErrorCode) -> (r: S3ErrorBuilder)
//@ spec
    ensures r.code() == code, r.msg() is None,
//@ fn src/errors.rs S3Error::new
//@ sig pub fn new<T: VIntoString>(code: S3ErrorCode, message: T) -> (r: S3Error)
//@ spec
    ensures r.code() == code, r.msg() == Some(message.sv()),
//@ fn src/errors.rs S3Error::into_xml_response
//@ sig pub fn into_xml_response(self) -> (r: XmlErrorResponse)
//@ spec
    ensures r.code == self.code(), (match r.message { Some(m) => Some(m@), None => None }) == self.msg(),
//@ text
}
//@ rewrite mime . as_ref () ==> mime . vmime_str ()
//@ rewrite mime :: TEXT_XML ==> mime_text_xml_()
//@ rewrite & mime_text_xml_() ==> mime_text_xml()
//@ rewrite HeaderName :: ==> HName ::
//@ include hashmap.rs
//@ include display.rs
//@ hconst content-type
//@ hof src/utils/xml.rs EventWriter::stack
//@ hof src/utils/xml.rs EventWriter::opt_stack
//@ hof src/utils/xml.rs EventWriter::iter_element
//@ hof src/utils/response.rs Response::set_xml_body BoxStdError::vfrom
//@ text
pub mod oph {
    use super::*;
    pub open spec fn opt_header(m: Map<Seq<char>, Seq<u8>>, n: Seq<char>, v: Option<Seq<char>>) -> Map<Seq<char>, Seq<u8>> {
        match v { Some(s) => m.insert(n, encode_utf8(s)), None => m }
    }
    /// the header field of a user metadata entry
    pub open spec fn meta_header(k: Seq<char>) -> Option<Seq<char>> { header_name_of(encode_utf8("x-amz-meta-"@ + k)) }
    /// what metadata headers add: every entry is there under its name, every other field is unchanged
    pub open spec fn meta_headers(o: Map<Seq<char>, Seq<u8>>, n: Map<Seq<char>, Seq<u8>>, m: Map<Seq<char>, Seq<char>>) -> bool {
        &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> meta_header(k) is Some && n.contains_key(meta_header(k).unwrap())
        &&& forall|h: Seq<char>| #[trigger] n.contains_key(h) ==> (o.contains_key(h) && n[h] == o[h]) || exists|k: Seq<char>| #[trigger] m.contains_key(k) && meta_header(k) == Some(h) && n[h] == encode_utf8(m[k])
        &&& forall|h: Seq<char>| #[trigger] o.contains_key(h) ==> n.contains_key(h)
        &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) && (forall|j: Seq<char>| #[trigger] m.contains_key(j) && meta_header(j) == meta_header(k) ==> j == k)
            ==> n[meta_header(k).unwrap()] == encode_utf8(m[k])
    }
    /// every entry can be a header field
    pub open spec fn meta_ok(m: Map<Seq<char>, Seq<char>>) -> bool {
        forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> meta_header(k) is Some && header_bytes(encode_utf8(m[k]))
    }
}
pub use oph::{opt_header, meta_header, meta_headers, meta_ok};
pub open spec fn os(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
impl Response {
//@ fn src/utils/response.rs Response::new_with_status
//@ method into vinto_body
//@ sig pub fn new_with_status<B: VIntoBody>(body: B, status: StatusCode) -> (r: Self)
//@ spec
    ensures r.st == status, r.bd@ == body.bodyv(), r.hd@ == Map::<Seq<char>, Seq<u8>>::empty(),
//@ fn src/utils/response.rs Response::set_optional_header
//@ sig pub fn set_optional_header<N: VHeaderName>(&mut self, name: N, value: Option<String>) -> (r: Result<(), InvalidHeaderValue>)
//@ spec
    ensures
        r is Ok ==> final(self).hd@ == opt_header(old(self).hd@, name.hn(), os(value)),
        r is Ok <==> (value is Some ==> header_bytes(encode_utf8(value.unwrap()@))),
        final(self).st == old(self).st, final(self).bd == old(self).bd,
//@ fn src/utils/response.rs Response::set_mime
//@ sig pub fn set_mime(&mut self, mime: &Mime) -> (r: Result<(), InvalidHeaderValue>)
//@ spec
    ensures
        r is Ok ==> final(self).hd@ == opt_header(old(self).hd@, "content-type"@, Some(mime@)),
        final(self).st == old(self).st, final(self).bd == old(self).bd,
//@ fn src/utils/response.rs Response::set_status
//@ sig pub fn set_status(&mut self, status: StatusCode)
//@ spec
    ensures final(self).st == status, final(self).hd == old(self).hd, final(self).bd == old(self).bd,
//@ fn src/utils/response.rs Response::set_metadata_headers
//@ question * BoxStdError::vfrom
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0
        invariant
            map_entries(metadata@, it0.v()), 0 <= it0.i() <= it0.v().len(),
            forall|i: int| 0 <= i < it0.i() ==> (#[trigger] meta_header(it0.v()[i].0@)) is Some && headers@.contains_key(meta_header(it0.v()[i].0@).unwrap()),
            forall|h: Seq<char>| #[trigger] headers@.contains_key(h) ==> (o.contains_key(h) && headers@[h] == o[h]) || exists|i: int| 0 <= i < it0.i() && meta_header(#[trigger] it0.v()[i].0@) == Some(h) && headers@[h] == encode_utf8(it0.v()[i].1@),
            forall|h: Seq<char>| #[trigger] o.contains_key(h) ==> headers@.contains_key(h),
            forall|i: int| 0 <= i < it0.i() && (forall|j: int| 0 <= j < it0.v().len() && meta_header((#[trigger] it0.v()[j]).0@) == meta_header(it0.v()[i].0@) ==> it0.v()[j].0@ == it0.v()[i].0@)
               ==> headers@[(#[trigger] meta_header(it0.v()[i].0@)).unwrap()] == encode_utf8(it0.v()[i].1@),
        ensures it0.i() == it0.v().len(),
        decreases it0.v().len() - it0.i(),
//@ hint start
    let ghost o = self.hd@;
//@ sig pub fn set_metadata_headers(&mut self, metadata: &HashMap<String, String>) -> (r: Result<(), BoxStdError>)
//@ spec
    ensures
        r is Ok ==> meta_headers(old(self).hd@, final(self).hd@, metadata@),
        meta_ok(metadata@) ==> r is Ok,
        final(self).st == old(self).st, final(self).bd == old(self).bd,
//@ text
}
//@ rewrite characters ( & data ) ==> characters ( data . vderef () )
//@ text
/// Deref<Target = str>
pub trait VDerefStr { spec fn ds(&self) -> Seq<char>; fn vderef(&self) -> (r: &str) ensures r@ == self.ds(); }
impl VDerefStr for String { open spec fn ds(&self) -> Seq<char> { self@ } fn vderef(&self) -> (r: &str) { self.as_str() } }
impl VDerefStr for &str { open spec fn ds(&self) -> Seq<char> { self@ } fn vderef(&self) -> (r: &str) { *self } }
impl VDerefStr for &String { open spec fn ds(&self) -> Seq<char> { self@ } fn vderef(&self) -> (r: &str) { self.as_str() } }
/// an element holding text
pub open spec fn ev_elem(s: Seq<Ev>, n: Seq<char>, t: Seq<char>) -> Seq<Ev> { ev_push(ev_push(ev_push(s, Ev::Start(n)), Ev::Chars(t)), Ev::End) }
pub open spec fn ev_opt(s: Seq<Ev>, n: Seq<char>, t: Option<Seq<char>>) -> Seq<Ev> { match t { Some(t) => ev_elem(s, n, t), None => s } }
impl<'b> EventWriter<'b> {
//@ fn src/utils/xml.rs EventWriter::element
//@ sig pub fn element(&mut self, name: &str, data: &str) -> (r: Result<(), XmlError>)
//@ spec
    ensures
        r is Ok ==> xml_evs(final(self).out@) == ev_elem(xml_evs(old(self).out@), name@, data@),
        *final(final(self).out) == *final(old(self).out),
//@ fn src/utils/xml.rs EventWriter::opt_element
//@ sig pub fn opt_element<T: VDerefStr>(&mut self, name: &str, data: Option<T>) -> (r: Result<(), XmlError>)
//@ spec
    ensures
        r is Ok ==> xml_evs(final(self).out@) == ev_opt(xml_evs(old(self).out@), name@, match data { Some(d) => Some(d.ds()), None => None }),
        *final(final(self).out) == *final(old(self).out),
//@ text
}
/// the S3 error document: <Error><Code>..</Code><Message>..</Message></Error>
pub open spec fn error_doc(code: Seq<char>, msg: Option<Seq<char>>) -> Seq<Ev> {
    let s = ev_push(ev_push(Seq::empty(), Ev::Doc), Ev::Start("Error"@));
    ev_push(ev_opt(ev_elem(s, "Code"@, code), "Message"@, msg), Ev::End)
}
/// the answer that reports an error
pub open spec fn error_response(r: Response, code: S3ErrorCode, msg: Option<Seq<char>>) -> bool {
    &&& code_status(code, r.st.0 as int)
    &&& xml_evs(r.bd@) == error_doc(code_name(code), msg)
    &&& r.hd@.contains_key("content-type"@) && r.hd@["content-type"@] == encode_utf8("text/xml"@)
}
pub type S3Result<T> = Result<T, S3Error>;
impl XmlErrorResponse {
//@ fn src/output.rs XmlErrorResponse=S3Output::try_into_response
//@ comb unwrap_or option
//@ comb map_err result
//@ sig pub fn try_into_response(self) -> (r: S3Result<Response>)
//@ spec
    ensures match r {
        Ok(p) => error_response(p, self.code, os(self.message)),
        Err(e) => e.code() is InternalError,
    },
//@ hint start
    proof { axiom_xml_empty(); }
//@ text
}
/// outputs of the operations
pub trait S3Output: Sized {
    spec fn out_ok(self, r: Response) -> bool;
    spec fn out_err(self, e: S3Error) -> bool;
    fn try_into_response(self) -> (r: S3Result<Response>)
        ensures match r { Ok(p) => self.out_ok(p), Err(e) => self.out_err(e) };
}
/// Into<S3Error> of the operation errors
pub trait IntoS3Error: Sized { spec fn into_err(self, e: S3Error) -> bool; fn vinto_err(self) -> (r: S3Error) ensures self.into_err(r); }
//@ item src/errors.rs S3StorageError
//@ rewrite crate :: errors :: ==>
//@ text
pub type S3StorageResult<T, E> = Result<T, S3StorageError<E>>;
//@ fn src/output.rs S3StorageResult=S3Output::try_into_response
//@ method into vinto_err
//@ sig pub fn storage_result_into_response<T: S3Output, E: IntoS3Error>(self_: S3StorageResult<T, E>) -> (r: S3Result<Response>)
//@ spec
    ensures
        self_ is Ok ==> (match r { Ok(p) => self_->Ok_0.out_ok(p), Err(e) => self_->Ok_0.out_err(e) }),
        self_ is Err ==> r is Err && (match self_->Err_0 { S3StorageError::Operation(e) => e.into_err(r->Err_0), S3StorageError::Other(e) => r->Err_0 == e }),
//@ text
// ---------------------------------------------------------------- the errors of the operations (rusoto_s3) become the code of the same name
//@ text
pub enum CopyObjectError { ObjectNotInActiveTierError(String) }
impl IntoS3Error for CopyObjectError {
    open spec fn into_err(self, e: S3Error) -> bool {
        match self {
            CopyObjectError::ObjectNotInActiveTierError(m) => e.code() is ObjectNotInActiveTierError && e.msg() == Some(m@),
        }
    }
    fn vinto_err(self) -> (r: S3Error) { copyobjecterror_from(self) }
}
//@ fn src/ops/copy_object.rs S3Error=From::from
//@ alias Self::new S3Error::new
//@ sig pub fn copyobjecterror_from(err: CopyObjectError) -> (r: S3Error)
//@ spec
    ensures err.into_err(r),
//@ text
pub enum CreateBucketError { BucketAlreadyExists(String), BucketAlreadyOwnedByYou(String) }
impl IntoS3Error for CreateBucketError {
    open spec fn into_err(self, e: S3Error) -> bool {
        match self {
            CreateBucketError::BucketAlreadyExists(m) => e.code() is BucketAlreadyExists && e.msg() == Some(m@),
            CreateBucketError::BucketAlreadyOwnedByYou(m) => e.code() is BucketAlreadyOwnedByYou && e.msg() == Some(m@),
        }
    }
    fn vinto_err(self) -> (r: S3Error) { createbucketerror_from(self) }
}
//@ fn src/ops/create_bucket.rs S3Error=From::from
//@ alias Self::new S3Error::new
//@ sig pub fn createbucketerror_from(err: CreateBucketError) -> (r: S3Error)
//@ spec
    ensures err.into_err(r),
//@ text
pub enum GetObjectError { NoSuchKey(String), InvalidObjectState(String) }
impl IntoS3Error for GetObjectError {
    open spec fn into_err(self, e: S3Error) -> bool {
        match self {
            GetObjectError::NoSuchKey(m) => e.code() is NoSuchKey && e.msg() == Some(m@),
            GetObjectError::InvalidObjectState(m) => e.code() is InvalidObjectState && e.msg() == Some(m@),
        }
    }
    fn vinto_err(self) -> (r: S3Error) { getobjecterror_from(self) }
}
//@ fn src/ops/get_object.rs S3Error=From::from
//@ alias Self::new S3Error::new
//@ sig pub fn getobjecterror_from(err: GetObjectError) -> (r: S3Error)
//@ spec
    ensures err.into_err(r),
//@ text
pub enum HeadBucketError { NoSuchBucket(String) }
impl IntoS3Error for HeadBucketError {
    open spec fn into_err(self, e: S3Error) -> bool {
        match self {
            HeadBucketError::NoSuchBucket(m) => e.code() is NoSuchBucket && e.msg() == Some(m@),
        }
    }
    fn vinto_err(self) -> (r: S3Error) { headbucketerror_from(self) }
}
//@ fn src/ops/head_bucket.rs S3Error=From::from
//@ alias Self::new S3Error::new
//@ sig pub fn headbucketerror_from(err: HeadBucketError) -> (r: S3Error)
//@ spec
    ensures err.into_err(r),
//@ text
pub enum HeadObjectError { NoSuchKey(String) }
impl IntoS3Error for HeadObjectError {
    open spec fn into_err(self, e: S3Error) -> bool {
        match self {
            HeadObjectError::NoSuchKey(m) => e.code() is NoSuchKey && e.msg() == Some(m@),
        }
    }
    fn vinto_err(self) -> (r: S3Error) { headobjecterror_from(self) }
}
//@ fn src/ops/head_object.rs S3Error=From::from
//@ alias Self::new S3Error::new
//@ sig pub fn headobjecterror_from(err: HeadObjectError) -> (r: S3Error)
//@ spec
    ensures err.into_err(r),
//@ text
pub enum ListObjectsError { NoSuchBucket(String) }
impl IntoS3Error for ListObjectsError {
    open spec fn into_err(self, e: S3Error) -> bool {
        match self {
            ListObjectsError::NoSuchBucket(m) => e.code() is NoSuchBucket && e.msg() == Some(m@),
        }
    }
    fn vinto_err(self) -> (r: S3Error) { listobjectserror_from(self) }
}
//@ fn src/ops/list_objects.rs S3Error=From::from
//@ alias Self::new S3Error::new
//@ sig pub fn listobjectserror_from(err: ListObjectsError) -> (r: S3Error)
//@ spec
    ensures err.into_err(r),
//@ text
pub enum ListObjectsV2Error { NoSuchBucket(String) }
impl IntoS3Error for ListObjectsV2Error {
    open spec fn into_err(self, e: S3Error) -> bool {
        match self {
            ListObjectsV2Error::NoSuchBucket(m) => e.code() is NoSuchBucket && e.msg() == Some(m@),
        }
    }
    fn vinto_err(self) -> (r: S3Error) { listobjectsv2error_from(self) }
}
//@ fn src/ops/list_objects_v2.rs S3Error=From::from
//@ alias Self::new S3Error::new
//@ sig pub fn listobjectsv2error_from(err: ListObjectsV2Error) -> (r: S3Error)
//@ spec
    ensures err.into_err(r),
