//@ import u08_errors.vc
//@ include dto.rs
//@ headernames src/headers.rs declare_header_name
//@ hconst accept-ranges cache-control content-disposition content-encoding content-language content-length content-range content-type etag expires if-match if-modified-since if-none-match if-unmodified-since last-modified location range
//@ hof src/utils/xml.rs EventWriter::stack
//@ hof src/utils/xml.rs EventWriter::opt_stack
//@ hof src/utils/xml.rs EventWriter::iter_element
//@ hof src/utils/response.rs Response::set_xml_body BoxStdError::vfrom
//@ rewrite mime :: TEXT_XML ==> mime_text_xml_()
//@ rewrite & mime_text_xml_() ==> mime_text_xml()
//@ hof src/ops.rs wrap_internal_error same BoxStdError::vfrom
//@ question * BoxStdError::vfrom
//@ rewrite crate :: errors :: ==>
//@ rewrite time :: map_opt_rfc3339_to_last_modified ==> map_opt_rfc3339_to_last_modified
//@ rewrite . as_deref ( ) ==> . vas_deref ( )
//@ rewrite . into_iter ( ) ==> . vinto_it ( )
//@ rewrite . to_string ( ) ==> . vto_string ( )
//@ text
#[verifier::external_body]
pub struct ByteStream { _p: () }
/// the body that yields what the stream yields
pub uninterp spec fn stream_body(b: ByteStream) -> Body;
impl Body {
    #[verifier::external_body]
    pub fn wrap_stream(b: ByteStream) -> (r: Body) ensures r == stream_body(b) { unimplemented!() }
}
pub trait VAsDeref { spec fn adv(&self) -> Option<Seq<char>>; fn vas_deref(&self) -> (r: Option<&str>) ensures (match r { Some(s) => Some(s@), None => None }) == self.adv(); }
impl VAsDeref for Option<String> {
    open spec fn adv(&self) -> Option<Seq<char>> { os(*self) }
    fn vas_deref(&self) -> (r: Option<&str>) { match self { Some(s) => Some(s.as_str()), None => None } }
}
pub assume_specification<T, E>[ Option::<Result<T, E>>::transpose ](o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) });
/// Vec::into_iter
pub trait VVecIt<T> { fn vinto_it(self) -> (r: VIt<T>); }
impl<T> VVecIt<T> for Vec<T> { fn vinto_it(self) -> (r: VIt<T>) ensures r.v() == self@, r.i() == 0 { vinto_iter(self) } }
pub trait VToString { spec fn tsv(&self) -> Seq<char>; fn vto_string(&self) -> (r: String) ensures r@ == self.tsv(); }
impl<T: VDisp> VToString for T {
    open spec fn tsv(&self) -> Seq<char> { self.dv() }
    #[verifier::external_body]
    fn vto_string(&self) -> (r: String) { unimplemented!() }
}
pub open spec fn omap(o: Option<HashMap<String, String>>) -> Option<Map<Seq<char>, Seq<char>>> { match o { Some(x) => Some(x@), None => None } }
pub open spec fn odisp<T: VDisp>(o: Option<T>) -> Option<Seq<char>> { match o { Some(x) => Some(x.dv()), None => None } }
pub use hvl::{lemma_hv_meta, hv, has, hvo, oenc, can, meta_can, meta_out, nometa};
pub mod hvl {
    use super::*;
    pub axiom fn axiom_meta_name(k: Seq<char>) ensures meta_header(k) is Some ==> is_meta(meta_header(k).unwrap());
    pub open spec fn oenc(o: Option<Seq<char>>) -> Option<Seq<u8>> { match o { Some(x) => Some(encode_utf8(x)), None => None } }
    /// can be the value of a header field, if there is one
    pub open spec fn can(o: Option<Seq<char>>) -> bool { o is Some ==> header_bytes(encode_utf8(o->Some_0)) }
    pub open spec fn meta_can(o: Option<HashMap<String, String>>) -> bool { o is Some ==> meta_ok(o->Some_0@) }
        /// the metadata fields of a response are the entries of the metadata
    pub open spec fn meta_out(m: Map<Seq<char>, Seq<u8>>, o: Option<Map<Seq<char>, Seq<char>>>) -> bool {
        match o { Some(o) => meta_all(m, o) && meta_only(m, o), None => nometa(m) }
    }
    pub open spec fn meta_all(m: Map<Seq<char>, Seq<u8>>, o: Map<Seq<char>, Seq<char>>) -> bool {
        forall|k: Seq<char>| #[trigger] o.contains_key(k) ==> meta_header(k) is Some && hv(m, meta_header(k).unwrap()) is Some
    }
    pub open spec fn meta_only(m: Map<Seq<char>, Seq<u8>>, o: Map<Seq<char>, Seq<char>>) -> bool {
        forall|h: Seq<char>| is_meta(h) && #[trigger] has(m, h) ==> meta_entry(m, o, h)
    }
    pub open spec fn meta_entry(m: Map<Seq<char>, Seq<u8>>, o: Map<Seq<char>, Seq<char>>, h: Seq<char>) -> bool {
        exists|k: Seq<char>| #[trigger] o.contains_key(k) && meta_header(k) == Some(h) && hv(m, h) == Some(encode_utf8(o[k]))
    }
    /// the value of a header field
    pub open spec fn hv(m: Map<Seq<char>, Seq<u8>>, k: Seq<char>) -> Option<Seq<u8>> { if m.contains_key(k) { Some(m[k]) } else { None } }
    pub open spec fn has(m: Map<Seq<char>, Seq<u8>>, k: Seq<char>) -> bool { m.contains_key(k) }
    /// the value after an optional field was set, with the value before
    pub open spec fn hvo(v: Option<Seq<char>>, p: Option<Seq<u8>>) -> Option<Seq<u8>> { match v { Some(s) => Some(encode_utf8(s)), None => p } }
    pub broadcast proof fn lemma_hvo(v: Option<Seq<char>>, p: Option<Seq<u8>>)
        ensures p is None ==> #[trigger] hvo(v, p) == oenc(v),
    {}
    pub broadcast proof fn lemma_hv_opt(m: Map<Seq<char>, Seq<u8>>, n: Seq<char>, v: Option<Seq<char>>, k: Seq<char>)
        ensures #[trigger] hv(opt_header(m, n, v), k) == (if n == k { hvo(v, hv(m, k)) } else { hv(m, k) }),
    {}
    pub broadcast proof fn lemma_hv_empty(k: Seq<char>)
        ensures #[trigger] hv(Map::<Seq<char>, Seq<u8>>::empty(), k) is None,
    {}
    pub broadcast proof fn lemma_has_opt(m: Map<Seq<char>, Seq<u8>>, n: Seq<char>, v: Option<Seq<char>>, k: Seq<char>)
        ensures #[trigger] has(opt_header(m, n, v), k) ==> n == k || has(m, k),
    {}
    /// no metadata field
    pub open spec fn nometa(m: Map<Seq<char>, Seq<u8>>) -> bool { forall|h: Seq<char>| is_meta(h) ==> !#[trigger] has(m, h) }
    pub broadcast proof fn lemma_nometa_opt(m: Map<Seq<char>, Seq<u8>>, n: Seq<char>, v: Option<Seq<char>>)
        ensures #![trigger nometa(opt_header(m, n, v))] !is_meta(n) && nometa(m) ==> nometa(opt_header(m, n, v)),
    {
        if !is_meta(n) && nometa(m) {
            assert forall|h: Seq<char>| is_meta(h) implies !#[trigger] has(opt_header(m, n, v), h) by { assert(!(has(m, h))); }
        }
    }
    pub broadcast proof fn lemma_nometa_empty()
        ensures #[trigger] nometa(Map::<Seq<char>, Seq<u8>>::empty()),
    {}
    pub broadcast proof fn lemma_meta_none(m: Map<Seq<char>, Seq<u8>>)
        ensures nometa(m) ==> #[trigger] meta_out(m, None),
    {}
    pub broadcast proof fn lemma_meta_some(o: Map<Seq<char>, Seq<u8>>, n: Map<Seq<char>, Seq<u8>>, x: Map<Seq<char>, Seq<char>>)
        requires #[trigger] meta_headers(o, n, x),
        ensures nometa(o) ==> meta_out(n, Some(x)),
    {
        lemma_hv_meta(o, n, x);
        if nometa(o) {
            assert forall|h: Seq<char>| is_meta(h) && #[trigger] has(n, h) implies meta_entry(n, x, h) by { assert(!(has(o, h))); }
            assert(meta_only(n, x));
            assert forall|k: Seq<char>| #[trigger] x.contains_key(k) implies meta_header(k) is Some && hv(n, meta_header(k).unwrap()) is Some by {}
            assert(meta_all(n, x));
        }
    }
    pub broadcast proof fn lemma_has_meta(o: Map<Seq<char>, Seq<u8>>, n: Map<Seq<char>, Seq<u8>>, m: Map<Seq<char>, Seq<char>>, h: Seq<char>)
        requires #[trigger] meta_headers(o, n, m),
        ensures !is_meta(h) && #[trigger] has(n, h) ==> has(o, h),
    { lemma_hv_meta(o, n, m); }
    pub broadcast proof fn lemma_has_empty(k: Seq<char>)
        ensures !#[trigger] has(Map::<Seq<char>, Seq<u8>>::empty(), k),
    {}
    pub proof fn lemma_hv_meta(o: Map<Seq<char>, Seq<u8>>, n: Map<Seq<char>, Seq<u8>>, m: Map<Seq<char>, Seq<char>>)
        requires meta_headers(o, n, m),
        ensures
            forall|h: Seq<char>| !is_meta(h) ==> #[trigger] hv(n, h) == hv(o, h),
            forall|h: Seq<char>| !is_meta(h) ==> #[trigger] has(n, h) ==> has(o, h),
            forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> meta_header(k) is Some && hv(n, meta_header(k).unwrap()) is Some,
            forall|h: Seq<char>| #[trigger] has(n, h) ==> has(o, h) || exists|k: Seq<char>| #[trigger] m.contains_key(k) && meta_header(k) == Some(h) && hv(n, h) == Some(encode_utf8(m[k])),
    {
        assert forall|h: Seq<char>| !is_meta(h) implies #[trigger] hv(n, h) == hv(o, h) by {
            if n.contains_key(h) && !(o.contains_key(h) && n[h] == o[h]) {
                let k = choose|k: Seq<char>| #[trigger] m.contains_key(k) && meta_header(k) == Some(h) && n[h] == encode_utf8(m[k]);
                axiom_meta_name(k);
            }
            if o.contains_key(h) { assert(n.contains_key(h)); }
        }
        assert forall|h: Seq<char>| !is_meta(h) && #[trigger] has(n, h) implies has(o, h) by { assert(hv(n, h) == hv(o, h)); }
        assert forall|h: Seq<char>| #[trigger] has(n, h) implies has(o, h) || exists|k: Seq<char>| #[trigger] m.contains_key(k) && meta_header(k) == Some(h) && hv(n, h) == Some(encode_utf8(m[k])) by {
            assert(n.contains_key(h));
        }
    }
}
//@ include hids.rs
//@ text
//@ text
// ---------------------------------------------------------------- trusted: chrono
/// the instant an RFC 3339 date names
pub uninterp spec fn rfc3339(s: Seq<char>) -> Option<int>;
/// an instant in UTC in a strftime format
pub uninterp spec fn strftime(t: int, f: Seq<char>) -> Seq<char>;
/// the date of a Last-Modified header
pub open spec fn odate(s: Option<Seq<char>>) -> Option<Seq<char>> { match s { Some(s) => Some(strftime(rfc3339(s)->Some_0, "%a, %d %b %Y %T GMT"@)), None => None } }
#[verifier::external_body]
pub struct ParseError { _p: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(Z)]
pub struct DateTime<Z> { _p: std::marker::PhantomData<Z> }
pub struct Utc;
pub struct FixedOffset;
impl<Z> DateTime<Z> { pub uninterp spec fn t(&self) -> int; }
impl DateTime<FixedOffset> {
    #[verifier::external_body]
    pub fn parse_from_rfc3339(s: &str) -> (r: Result<DateTime<FixedOffset>, ParseError>)
        ensures match r { Ok(d) => rfc3339(s@) == Some(d.t()), Err(_) => rfc3339(s@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn vinto_utc(self) -> (r: DateTime<Utc>) ensures r.t() == self.t() { unimplemented!() }
}
pub struct DelayedFormat { pub d: DateTime<Utc>, pub f: String }
impl DelayedFormat { 
    #[verifier::external_body]
    pub fn vto_string_(&self) -> (r: String) ensures r@ == strftime(self.d.t(), self.f@) { unimplemented!() }
}
impl DateTime<Utc> {
    #[verifier::external_body]
    pub fn format(&self, f: &str) -> (r: DelayedFormat) ensures r.d == *self, r.f@ == f@ { unimplemented!() }
}
impl VDisp for DelayedFormat { open spec fn dv(&self) -> Seq<char> { strftime(self.d.t(), self.f@) } }
//@ item src/utils/time.rs LAST_MODIFIED_TIME_FORMAT
//@ fn src/utils/time.rs rfc3339_to_last_modified
//@ method into vinto_utc
//@ question * same
//@ sig pub fn rfc3339_to_last_modified(s: &str) -> (r: Result<String, ParseError>)
//@ spec
    ensures match r { Ok(x) => rfc3339(s@) is Some && Some(x@) == odate(Some(s@)), Err(_) => rfc3339(s@) is None },
//@ fn src/utils/time.rs map_opt_rfc3339_to_last_modified
//@ sig pub fn map_opt_rfc3339_to_last_modified(s: Option<&str>) -> (r: Result<Option<String>, ParseError>)
//@ spec
    ensures match r { Ok(x) => (s is Some ==> rfc3339(s->Some_0@) is Some) && os(x) == odate(match s { Some(s) => Some(s@), None => None }), Err(_) => s is Some && rfc3339(s->Some_0@) is None },
//@ text
// ---------------------------------------------------------------- the documents
pub open spec fn ev_open(n: Seq<char>) -> Seq<Ev> { ev_push(ev_push(Seq::empty(), Ev::Doc), Ev::Start(n)) }
pub open spec fn doc_complete_multipart_upload(o: CompleteMultipartUploadOutput) -> Seq<Ev> {
    let s = ev_open("CompleteMultipartUploadResult"@);
    let s = ev_opt(s, "Location"@, os(o.location));
    let s = ev_opt(s, "Bucket"@, os(o.bucket));
    let s = ev_opt(s, "Key"@, os(o.key));
    ev_push(ev_opt(s, "ETag"@, os(o.e_tag)), Ev::End)
}
pub open spec fn doc_create_multipart_upload(o: CreateMultipartUploadOutput) -> Seq<Ev> {
    let s = ev_open("InitialMultipartUploadResult"@);
    let s = ev_opt(s, "Bucket"@, os(o.bucket));
    let s = ev_opt(s, "Key"@, os(o.key));
    ev_push(ev_opt(s, "UploadId"@, os(o.upload_id)), Ev::End)
}
pub open spec fn doc_copy_object(o: CopyObjectOutput) -> Seq<Ev> {
    match o.copy_object_result {
        None => ev_push(Seq::empty(), Ev::Doc),
        Some(c) => ev_push(ev_opt(ev_opt(ev_open("CopyObjectResult"@), "ETag"@, os(c.e_tag)), "LastModified"@, os(c.last_modified)), Ev::End),
    }
}
pub open spec fn doc_get_bucket_location(o: GetBucketLocationOutput) -> Seq<Ev> {
    ev_elem(ev_push(Seq::empty(), Ev::Doc), "LocationConstraint"@, match o.location_constraint { Some(s) => s@, None => Seq::empty() })
}
// one <Deleted> for each deleted object, in order
pub open spec fn ev_deleted(s: Seq<Ev>, d: Seq<DeletedObject>) -> Seq<Ev>
    decreases d.len(),
{
    if d.len() == 0 { s } else {
        let o = d.last();
        let s = ev_push(ev_deleted(s, d.drop_last()), Ev::Start("Deleted"@));
        let s = ev_opt(s, "DeleteMarker"@, odisp(o.delete_marker));
        let s = ev_opt(s, "DeleteMarkerVersionId"@, os(o.delete_marker_version_id));
        let s = ev_opt(s, "Key"@, os(o.key));
        ev_push(ev_opt(s, "VersionId"@, os(o.version_id)), Ev::End)
    }
}
pub open spec fn ev_errors(s: Seq<Ev>, d: Seq<RusotoS3Error>) -> Seq<Ev>
    decreases d.len(),
{
    if d.len() == 0 { s } else {
        let o = d.last();
        let s = ev_push(ev_errors(s, d.drop_last()), Ev::Start("Error"@));
        let s = ev_opt(s, "Code"@, os(o.code));
        let s = ev_opt(s, "Key"@, os(o.key));
        let s = ev_opt(s, "Message"@, os(o.message));
        ev_push(ev_opt(s, "VersionId"@, os(o.version_id)), Ev::End)
    }
}
pub open spec fn doc_delete_objects(o: DeleteObjectsOutput) -> Seq<Ev> {
    let s = ev_open("DeleteResult"@);
    let s = match o.deleted { Some(d) => ev_deleted(s, d@), None => s };
    let s = match o.errors { Some(d) => ev_errors(s, d@), None => s };
    ev_push(s, Ev::End)
}
pub open spec fn ev_buckets(s: Seq<Ev>, d: Seq<Bucket>) -> Seq<Ev>
    decreases d.len(),
{
    if d.len() == 0 { s } else {
        let o = d.last();
        let s = ev_push(ev_buckets(s, d.drop_last()), Ev::Start("Bucket"@));
        let s = ev_opt(s, "CreationDate"@, os(o.creation_date));
        ev_push(ev_opt(s, "Name"@, os(o.name)), Ev::End)
    }
}
pub open spec fn doc_list_buckets(o: ListBucketsOutput) -> Seq<Ev> {
    let s = ev_open("ListAllMyBucketsResult"@);
    let s = match o.buckets { Some(b) => ev_push(ev_buckets(ev_push(s, Ev::Start("Buckets"@)), b@), Ev::End), None => s };
    let s = match o.owner { Some(w) => ev_push(ev_opt(ev_opt(ev_push(s, Ev::Start("Owner"@)), "DisplayName"@, os(w.display_name)), "ID"@, os(w.id)), Ev::End), None => s };
    ev_push(s, Ev::End)
}
pub open spec fn ev_contents(s: Seq<Ev>, d: Seq<Object>) -> Seq<Ev>
    decreases d.len(),
{
    if d.len() == 0 { s } else {
        let o = d.last();
        let s = ev_push(ev_contents(s, d.drop_last()), Ev::Start("Contents"@));
        let s = ev_opt(s, "Key"@, os(o.key));
        let s = ev_opt(s, "LastModified"@, os(o.last_modified));
        let s = ev_opt(s, "ETag"@, os(o.e_tag));
        let s = ev_opt(s, "Size"@, odisp(o.size));
        let s = ev_opt(s, "StorageClass"@, os(o.storage_class));
        let s = match o.owner { Some(w) => ev_push(ev_opt(ev_opt(ev_push(s, Ev::Start("Owner"@)), "ID"@, os(w.id)), "DisplayName"@, os(w.display_name)), Ev::End), None => s };
        ev_push(s, Ev::End)
    }
}
pub open spec fn ev_prefixes(s: Seq<Ev>, d: Seq<CommonPrefix>) -> Seq<Ev>
    decreases d.len(),
{
    if d.len() == 0 { s } else { ev_opt(ev_prefixes(s, d.drop_last()), "Prefix"@, os(d.last().prefix)) }
}
pub open spec fn ev_common(s: Seq<Ev>, d: Option<Vec<CommonPrefix>>) -> Seq<Ev> {
    match d { Some(d) => ev_push(ev_prefixes(ev_push(s, Ev::Start("CommonPrefixes"@)), d@), Ev::End), None => s }
}
pub open spec fn ev_ocontents(s: Seq<Ev>, d: Option<Vec<Object>>) -> Seq<Ev> { match d { Some(d) => ev_contents(s, d@), None => s } }
pub open spec fn doc_list_objects(o: ListObjectsOutput) -> Seq<Ev> {
    let s = ev_open("ListBucketResult"@);
    let s = ev_opt(s, "IsTruncated"@, odisp(o.is_truncated));
    let s = ev_opt(s, "Marker"@, os(o.marker));
    let s = ev_opt(s, "NextMarker"@, os(o.next_marker));
    let s = ev_ocontents(s, o.contents);
    let s = ev_opt(s, "Name"@, os(o.name));
    let s = ev_opt(s, "Prefix"@, os(o.prefix));
    let s = ev_opt(s, "Delimiter"@, os(o.delimiter));
    let s = ev_opt(s, "MaxKeys"@, odisp(o.max_keys));
    let s = ev_common(s, o.common_prefixes);
    ev_push(ev_opt(s, "EncodingType"@, os(o.encoding_type)), Ev::End)
}
pub open spec fn doc_list_objects_v2(o: ListObjectsV2Output) -> Seq<Ev> {
    let s = ev_open("ListBucketResult"@);
    let s = ev_opt(s, "IsTruncated"@, odisp(o.is_truncated));
    let s = ev_ocontents(s, o.contents);
    let s = ev_opt(s, "Name"@, os(o.name));
    let s = ev_opt(s, "Prefix"@, os(o.prefix));
    let s = ev_opt(s, "Delimiter"@, os(o.delimiter));
    let s = ev_opt(s, "MaxKeys"@, odisp(o.max_keys));
    let s = ev_common(s, o.common_prefixes);
    let s = ev_opt(s, "EncodingType"@, os(o.encoding_type));
    let s = ev_opt(s, "KeyCount"@, odisp(o.key_count));
    let s = ev_opt(s, "ContinuationToken"@, os(o.continuation_token));
    let s = ev_opt(s, "NextContinuationToken"@, os(o.next_continuation_token));
    ev_push(ev_opt(s, "StartAfter"@, os(o.start_after)), Ev::End)
}
//@ text
pub mod op_put_object {
use super::*;
    broadcast use {bc::lemma_empty_chars, hvl::lemma_nometa_opt, hvl::lemma_nometa_empty, hvl::lemma_meta_none, hvl::lemma_meta_some, hvl::lemma_has_meta, hvl::lemma_hvo, hvl::lemma_hv_opt, hvl::lemma_hv_empty, hvl::lemma_has_opt, hvl::lemma_has_empty};
/// what the response reports of the output
pub open spec fn out_put_object(o: PutObjectOutput, r: Response) -> bool {
    &&& r.st == StatusCode::OK
    &&& hv(r.hd@, "x-amz-expiration"@) == oenc(os(o.expiration))
    &&& hv(r.hd@, "etag"@) == oenc(os(o.e_tag))
    &&& hv(r.hd@, "x-amz-server-side-encryption"@) == oenc(os(o.server_side_encryption))
    &&& hv(r.hd@, "x-amz-server-side-encryption-aws-kms-key-id"@) == oenc(os(o.ssekms_key_id))
    &&& hv(r.hd@, "x-amz-version-id"@) == oenc(os(o.version_id))
    &&& hv(r.hd@, "x-amz-server-side-encryption-customer-algorithm"@) == oenc(os(o.sse_customer_algorithm))
    &&& hv(r.hd@, "x-amz-server-side-encryption-customer-key-md5"@) == oenc(os(o.sse_customer_key_md5))
    &&& hv(r.hd@, "x-amz-server-side-encryption-context"@) == oenc(os(o.ssekms_encryption_context))
    &&& hv(r.hd@, "x-amz-request-charged"@) == oenc(os(o.request_charged))
    &&& r.bd@ == Seq::<u8>::empty()
    &&& forall|h: Seq<char>| #[trigger] has(r.hd@, h) ==> h == "x-amz-expiration"@ || h == "etag"@ || h == "x-amz-server-side-encryption"@ || h == "x-amz-server-side-encryption-aws-kms-key-id"@ || h == "x-amz-version-id"@ || h == "x-amz-server-side-encryption-customer-algorithm"@ || h == "x-amz-server-side-encryption-customer-key-md5"@ || h == "x-amz-server-side-encryption-context"@ || h == "x-amz-request-charged"@
}
/// every value can be a header value
pub open spec fn out_put_object_can(o: PutObjectOutput) -> bool {
    &&& can(os(o.expiration))
    &&& can(os(o.e_tag))
    &&& can(os(o.server_side_encryption))
    &&& can(os(o.ssekms_key_id))
    &&& can(os(o.version_id))
    &&& can(os(o.sse_customer_algorithm))
    &&& can(os(o.sse_customer_key_md5))
    &&& can(os(o.ssekms_encryption_context))
    &&& can(os(o.request_charged))
    &&& true
}
impl S3Output for PutObjectOutput {
    open spec fn out_ok(self, r: Response) -> bool { out_put_object(self, r) }
    open spec fn out_err(self, e: S3Error) -> bool { e.code() is InternalError && !out_put_object_can(self) }
    fn try_into_response(self) -> (r: S3Result<Response>) { out_put_object_resp(self) }
}
//@ fn src/ops/put_object.rs PutObjectOutput=S3Output::try_into_response
//@ nostrlit
//@ comb map option
//@ hide opt_header hv meta_headers has hvo oenc is_meta encode_utf8 nometa meta_out
//@ sig pub fn out_put_object_resp(self_: PutObjectOutput) -> (r: S3Result<Response>)
//@ hint start
    proof { axiom_xml_empty(); lemma_hids(); }
    let ghost o = self_;
//@ spec
    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },
//@ text
}
//@ text
pub mod op_upload_part {
use super::*;
    broadcast use {bc::lemma_empty_chars, hvl::lemma_nometa_opt, hvl::lemma_nometa_empty, hvl::lemma_meta_none, hvl::lemma_meta_some, hvl::lemma_has_meta, hvl::lemma_hvo, hvl::lemma_hv_opt, hvl::lemma_hv_empty, hvl::lemma_has_opt, hvl::lemma_has_empty};
/// what the response reports of the output
pub open spec fn out_upload_part(o: UploadPartOutput, r: Response) -> bool {
    &&& r.st == StatusCode::OK
    &&& hv(r.hd@, "etag"@) == oenc(os(o.e_tag))
    &&& hv(r.hd@, "x-amz-server-side-encryption"@) == oenc(os(o.server_side_encryption))
    &&& hv(r.hd@, "x-amz-server-side-encryption-aws-kms-key-id"@) == oenc(os(o.ssekms_key_id))
    &&& hv(r.hd@, "x-amz-server-side-encryption-customer-algorithm"@) == oenc(os(o.sse_customer_algorithm))
    &&& hv(r.hd@, "x-amz-server-side-encryption-customer-key-md5"@) == oenc(os(o.sse_customer_key_md5))
    &&& hv(r.hd@, "x-amz-request-charged"@) == oenc(os(o.request_charged))
    &&& r.bd@ == Seq::<u8>::empty()
    &&& forall|h: Seq<char>| #[trigger] has(r.hd@, h) ==> h == "etag"@ || h == "x-amz-server-side-encryption"@ || h == "x-amz-server-side-encryption-aws-kms-key-id"@ || h == "x-amz-server-side-encryption-customer-algorithm"@ || h == "x-amz-server-side-encryption-customer-key-md5"@ || h == "x-amz-request-charged"@
}
/// every value can be a header value
pub open spec fn out_upload_part_can(o: UploadPartOutput) -> bool {
    &&& can(os(o.e_tag))
    &&& can(os(o.server_side_encryption))
    &&& can(os(o.ssekms_key_id))
    &&& can(os(o.sse_customer_algorithm))
    &&& can(os(o.sse_customer_key_md5))
    &&& can(os(o.request_charged))
    &&& true
}
impl S3Output for UploadPartOutput {
    open spec fn out_ok(self, r: Response) -> bool { out_upload_part(self, r) }
    open spec fn out_err(self, e: S3Error) -> bool { e.code() is InternalError && !out_upload_part_can(self) }
    fn try_into_response(self) -> (r: S3Result<Response>) { out_upload_part_resp(self) }
}
//@ fn src/ops/upload_part.rs UploadPartOutput=S3Output::try_into_response
//@ nostrlit
//@ comb map option
//@ hide opt_header hv meta_headers has hvo oenc is_meta encode_utf8 nometa meta_out
//@ sig pub fn out_upload_part_resp(self_: UploadPartOutput) -> (r: S3Result<Response>)
//@ hint start
    proof { axiom_xml_empty(); lemma_hids(); }
    let ghost o = self_;
//@ spec
    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },
//@ text
}
//@ text
pub mod op_delete_object {
use super::*;
    broadcast use {bc::lemma_empty_chars, hvl::lemma_nometa_opt, hvl::lemma_nometa_empty, hvl::lemma_meta_none, hvl::lemma_meta_some, hvl::lemma_has_meta, hvl::lemma_hvo, hvl::lemma_hv_opt, hvl::lemma_hv_empty, hvl::lemma_has_opt, hvl::lemma_has_empty};
/// what the response reports of the output
pub open spec fn out_delete_object(o: DeleteObjectOutput, r: Response) -> bool {
    &&& r.st == StatusCode::NO_CONTENT
    &&& hv(r.hd@, "x-amz-delete-marker"@) == oenc(odisp(o.delete_marker))
    &&& hv(r.hd@, "x-amz-version-id"@) == oenc(os(o.version_id))
    &&& hv(r.hd@, "x-amz-request-charged"@) == oenc(os(o.request_charged))
    &&& r.bd@ == Seq::<u8>::empty()
    &&& forall|h: Seq<char>| #[trigger] has(r.hd@, h) ==> h == "x-amz-delete-marker"@ || h == "x-amz-version-id"@ || h == "x-amz-request-charged"@
}
/// every value can be a header value
pub open spec fn out_delete_object_can(o: DeleteObjectOutput) -> bool {
    &&& can(odisp(o.delete_marker))
    &&& can(os(o.version_id))
    &&& can(os(o.request_charged))
    &&& true
}
impl S3Output for DeleteObjectOutput {
    open spec fn out_ok(self, r: Response) -> bool { out_delete_object(self, r) }
    open spec fn out_err(self, e: S3Error) -> bool { e.code() is InternalError && !out_delete_object_can(self) }
    fn try_into_response(self) -> (r: S3Result<Response>) { out_delete_object_resp(self) }
}
//@ fn src/ops/delete_object.rs DeleteObjectOutput=S3Output::try_into_response
//@ nostrlit
//@ comb map option
//@ hide opt_header hv meta_headers has hvo oenc is_meta encode_utf8 nometa meta_out
//@ sig pub fn out_delete_object_resp(self_: DeleteObjectOutput) -> (r: S3Result<Response>)
//@ hint start
    proof { axiom_xml_empty(); lemma_hids(); }
    let ghost o = self_;
//@ spec
    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },
//@ text
}
//@ text
pub mod op_create_bucket {
use super::*;
    broadcast use {bc::lemma_empty_chars, hvl::lemma_nometa_opt, hvl::lemma_nometa_empty, hvl::lemma_meta_none, hvl::lemma_meta_some, hvl::lemma_has_meta, hvl::lemma_hvo, hvl::lemma_hv_opt, hvl::lemma_hv_empty, hvl::lemma_has_opt, hvl::lemma_has_empty};
/// what the response reports of the output
pub open spec fn out_create_bucket(o: CreateBucketOutput, r: Response) -> bool {
    &&& r.st == StatusCode::OK
    &&& hv(r.hd@, "location"@) == oenc(os(o.location))
    &&& r.bd@ == Seq::<u8>::empty()
    &&& forall|h: Seq<char>| #[trigger] has(r.hd@, h) ==> h == "location"@
}
/// every value can be a header value
pub open spec fn out_create_bucket_can(o: CreateBucketOutput) -> bool {
    &&& can(os(o.location))
    &&& true
}
impl S3Output for CreateBucketOutput {
    open spec fn out_ok(self, r: Response) -> bool { out_create_bucket(self, r) }
    open spec fn out_err(self, e: S3Error) -> bool { e.code() is InternalError && !out_create_bucket_can(self) }
    fn try_into_response(self) -> (r: S3Result<Response>) { out_create_bucket_resp(self) }
}
//@ fn src/ops/create_bucket.rs CreateBucketOutput=S3Output::try_into_response
//@ nostrlit
//@ comb map option
//@ hide opt_header hv meta_headers has hvo oenc is_meta encode_utf8 nometa meta_out
//@ sig pub fn out_create_bucket_resp(self_: CreateBucketOutput) -> (r: S3Result<Response>)
//@ hint start
    proof { axiom_xml_empty(); lemma_hids(); }
    let ghost o = self_;
//@ spec
    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },
//@ text
}
//@ text
pub mod op_head_bucket {
use super::*;
    broadcast use {bc::lemma_empty_chars, hvl::lemma_nometa_opt, hvl::lemma_nometa_empty, hvl::lemma_meta_none, hvl::lemma_meta_some, hvl::lemma_has_meta, hvl::lemma_hvo, hvl::lemma_hv_opt, hvl::lemma_hv_empty, hvl::lemma_has_opt, hvl::lemma_has_empty};
/// what the response reports of the output
pub open spec fn out_head_bucket(o: HeadBucketOutput, r: Response) -> bool {
    &&& r.st == StatusCode::OK
    &&& r.bd@ == Seq::<u8>::empty()
    &&& forall|h: Seq<char>| !#[trigger] has(r.hd@, h)
}
/// every value can be a header value
pub open spec fn out_head_bucket_can(o: HeadBucketOutput) -> bool {
    &&& true
}
impl S3Output for HeadBucketOutput {
    open spec fn out_ok(self, r: Response) -> bool { out_head_bucket(self, r) }
    open spec fn out_err(self, e: S3Error) -> bool { e.code() is InternalError && !out_head_bucket_can(self) }
    fn try_into_response(self) -> (r: S3Result<Response>) { out_head_bucket_resp(self) }
}
//@ fn src/ops/head_bucket.rs HeadBucketOutput=S3Output::try_into_response
//@ nostrlit
//@ comb map option
//@ hide opt_header hv meta_headers has hvo oenc is_meta encode_utf8 nometa meta_out
//@ sig pub fn out_head_bucket_resp(self_: HeadBucketOutput) -> (r: S3Result<Response>)
//@ hint start
    proof { axiom_xml_empty(); lemma_hids(); }
    let ghost o = self_;
//@ spec
    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },
//@ text
}
//@ text
pub mod op_delete_bucket {
use super::*;
    broadcast use {bc::lemma_empty_chars, hvl::lemma_nometa_opt, hvl::lemma_nometa_empty, hvl::lemma_meta_none, hvl::lemma_meta_some, hvl::lemma_has_meta, hvl::lemma_hvo, hvl::lemma_hv_opt, hvl::lemma_hv_empty, hvl::lemma_has_opt, hvl::lemma_has_empty};
/// what the response reports of the output
pub open spec fn out_delete_bucket(o: DeleteBucketOutput, r: Response) -> bool {
    &&& r.st == StatusCode::NO_CONTENT
    &&& r.bd@ == Seq::<u8>::empty()
    &&& forall|h: Seq<char>| !#[trigger] has(r.hd@, h)
}
/// every value can be a header value
pub open spec fn out_delete_bucket_can(o: DeleteBucketOutput) -> bool {
    &&& true
}
impl S3Output for DeleteBucketOutput {
    open spec fn out_ok(self, r: Response) -> bool { out_delete_bucket(self, r) }
    open spec fn out_err(self, e: S3Error) -> bool { e.code() is InternalError && !out_delete_bucket_can(self) }
    fn try_into_response(self) -> (r: S3Result<Response>) { out_delete_bucket_resp(self) }
}
//@ fn src/ops/delete_bucket.rs DeleteBucketOutput=S3Output::try_into_response
//@ nostrlit
//@ comb map option
//@ hide opt_header hv meta_headers has hvo oenc is_meta encode_utf8 nometa meta_out
//@ sig pub fn out_delete_bucket_resp(self_: DeleteBucketOutput) -> (r: S3Result<Response>)
//@ hint start
    proof { axiom_xml_empty(); lemma_hids(); }
    let ghost o = self_;
//@ spec
    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },
//@ text
}
//@ text
pub mod op_head_object {
use super::*;
    broadcast use {bc::lemma_empty_chars, hvl::lemma_nometa_opt, hvl::lemma_nometa_empty, hvl::lemma_meta_none, hvl::lemma_meta_some, hvl::lemma_has_meta, hvl::lemma_hvo, hvl::lemma_hv_opt, hvl::lemma_hv_empty, hvl::lemma_has_opt, hvl::lemma_has_empty};
/// what the response reports of the output
pub open spec fn out_head_object(o: HeadObjectOutput, r: Response) -> bool {
    &&& r.st == StatusCode::OK
    &&& hrec(r.hd@) == (HR { accept_ranges: oenc(os(o.accept_ranges)), cache_control: oenc(os(o.cache_control)), content_disposition: oenc(os(o.content_disposition)), content_encoding: oenc(os(o.content_encoding)), content_language: oenc(os(o.content_language)), content_length: oenc(odisp(o.content_length)), content_range: None, content_type: oenc(os(o.content_type)), etag: oenc(os(o.e_tag)), expires: oenc(os(o.expires)), last_modified: oenc(odate(os(o.last_modified))), location: None, x_amz_abort_date: None, x_amz_abort_rule_id: None, x_amz_copy_source_version_id: None, x_amz_delete_marker: oenc(odisp(o.delete_marker)), x_amz_expiration: oenc(os(o.expiration)), x_amz_missing_meta: oenc(odisp(o.missing_meta)), x_amz_mp_parts_count: oenc(odisp(o.parts_count)), x_amz_object_lock_legal_hold: oenc(os(o.object_lock_legal_hold_status)), x_amz_object_lock_mode: oenc(os(o.object_lock_mode)), x_amz_object_lock_retain_until_date: oenc(os(o.object_lock_retain_until_date)), x_amz_replication_status: oenc(os(o.replication_status)), x_amz_request_charged: oenc(os(o.request_charged)), x_amz_restore: oenc(os(o.restore)), x_amz_server_side_encryption: oenc(os(o.server_side_encryption)), x_amz_server_side_encryption_aws_kms_key_id: oenc(os(o.ssekms_key_id)), x_amz_server_side_encryption_context: None, x_amz_server_side_encryption_customer_algorithm: oenc(os(o.sse_customer_algorithm)), x_amz_server_side_encryption_customer_key_md5: oenc(os(o.sse_customer_key_md5)), x_amz_storage_class: oenc(os(o.storage_class)), x_amz_tagging_count: None, x_amz_version_id: oenc(os(o.version_id)), x_amz_website_redirect_location: oenc(os(o.website_redirect_location)), clean: true })
    &&& r.bd@ == Seq::<u8>::empty()
    &&& meta_out(r.hd@, omap(o.metadata))
}
/// every value can be a header value
pub open spec fn out_head_object_can(o: HeadObjectOutput) -> bool {
    &&& can(odisp(o.delete_marker))
    &&& can(os(o.accept_ranges))
    &&& can(os(o.expiration))
    &&& can(os(o.restore))
    &&& (o.last_modified is Some ==> rfc3339(o.last_modified->Some_0@) is Some)
    &&& can(odate(os(o.last_modified)))
    &&& can(odisp(o.content_length))
    &&& can(os(o.e_tag))
    &&& can(odisp(o.missing_meta))
    &&& can(os(o.version_id))
    &&& can(os(o.cache_control))
    &&& can(os(o.content_disposition))
    &&& can(os(o.content_encoding))
    &&& can(os(o.content_language))
    &&& can(os(o.content_type))
    &&& can(os(o.expires))
    &&& can(os(o.website_redirect_location))
    &&& can(os(o.server_side_encryption))
    &&& can(os(o.ssekms_key_id))
    &&& can(os(o.sse_customer_algorithm))
    &&& can(os(o.sse_customer_key_md5))
    &&& can(os(o.storage_class))
    &&& can(os(o.request_charged))
    &&& can(os(o.replication_status))
    &&& can(odisp(o.parts_count))
    &&& can(os(o.object_lock_mode))
    &&& can(os(o.object_lock_retain_until_date))
    &&& can(os(o.object_lock_legal_hold_status))
    &&& meta_can(o.metadata)
    &&& true
}
impl S3Output for HeadObjectOutput {
    open spec fn out_ok(self, r: Response) -> bool { out_head_object(self, r) }
    open spec fn out_err(self, e: S3Error) -> bool { e.code() is InternalError && !out_head_object_can(self) }
    fn try_into_response(self) -> (r: S3Result<Response>) { out_head_object_resp(self) }
}
//@ fn src/ops/head_object.rs HeadObjectOutput=S3Output::try_into_response
//@ nostrlit
//@ comb map option
//@ hide hrec opt_header hv meta_headers has hvo oenc is_meta encode_utf8 nometa meta_out
//@ sig pub fn out_head_object_resp(self_: HeadObjectOutput) -> (r: S3Result<Response>)
//@ hint start
    proof { axiom_xml_empty(); lemma_hids(); }
    broadcast use {hrl::lemma_hr_x_amz_delete_marker, hrl::lemma_hr_accept_ranges, hrl::lemma_hr_x_amz_expiration, hrl::lemma_hr_x_amz_restore, hrl::lemma_hr_last_modified, hrl::lemma_hr_content_length, hrl::lemma_hr_etag, hrl::lemma_hr_x_amz_missing_meta, hrl::lemma_hr_x_amz_version_id, hrl::lemma_hr_cache_control, hrl::lemma_hr_content_disposition, hrl::lemma_hr_content_encoding, hrl::lemma_hr_content_language, hrl::lemma_hr_content_type, hrl::lemma_hr_expires, hrl::lemma_hr_x_amz_website_redirect_location, hrl::lemma_hr_x_amz_server_side_encryption, hrl::lemma_hr_x_amz_server_side_encryption_aws_kms_key_id, hrl::lemma_hr_x_amz_server_side_encryption_customer_algorithm, hrl::lemma_hr_x_amz_server_side_encryption_customer_key_md5, hrl::lemma_hr_x_amz_storage_class, hrl::lemma_hr_x_amz_request_charged, hrl::lemma_hr_x_amz_replication_status, hrl::lemma_hr_x_amz_mp_parts_count, hrl::lemma_hr_x_amz_object_lock_mode, hrl::lemma_hr_x_amz_object_lock_retain_until_date, hrl::lemma_hr_x_amz_object_lock_legal_hold, hrl::lemma_hr_empty, hrl::lemma_hr_meta, hvl::lemma_hvo};
    let ghost o = self_;
//@ spec
    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },
//@ text
}
//@ text
pub mod op_get_object {
use super::*;
    broadcast use {bc::lemma_empty_chars, hvl::lemma_nometa_opt, hvl::lemma_nometa_empty, hvl::lemma_meta_none, hvl::lemma_meta_some, hvl::lemma_has_meta, hvl::lemma_hvo, hvl::lemma_hv_opt, hvl::lemma_hv_empty, hvl::lemma_has_opt, hvl::lemma_has_empty};
/// what the response reports of the output
pub open spec fn out_get_object(o: GetObjectOutput, r: Response) -> bool {
    &&& r.st == StatusCode::OK
    &&& hrec(r.hd@) == (HR { accept_ranges: oenc(os(o.accept_ranges)), cache_control: oenc(os(o.cache_control)), content_disposition: oenc(os(o.content_disposition)), content_encoding: oenc(os(o.content_encoding)), content_language: oenc(os(o.content_language)), content_length: oenc(odisp(o.content_length)), content_range: oenc(os(o.content_range)), content_type: oenc(os(o.content_type)), etag: oenc(os(o.e_tag)), expires: oenc(os(o.expires)), last_modified: oenc(odate(os(o.last_modified))), location: None, x_amz_abort_date: None, x_amz_abort_rule_id: None, x_amz_copy_source_version_id: None, x_amz_delete_marker: oenc(odisp(o.delete_marker)), x_amz_expiration: oenc(os(o.expiration)), x_amz_missing_meta: oenc(odisp(o.missing_meta)), x_amz_mp_parts_count: oenc(odisp(o.parts_count)), x_amz_object_lock_legal_hold: oenc(os(o.object_lock_legal_hold_status)), x_amz_object_lock_mode: oenc(os(o.object_lock_mode)), x_amz_object_lock_retain_until_date: oenc(os(o.object_lock_retain_until_date)), x_amz_replication_status: oenc(os(o.replication_status)), x_amz_request_charged: oenc(os(o.request_charged)), x_amz_restore: oenc(os(o.restore)), x_amz_server_side_encryption: oenc(os(o.server_side_encryption)), x_amz_server_side_encryption_aws_kms_key_id: oenc(os(o.ssekms_key_id)), x_amz_server_side_encryption_context: None, x_amz_server_side_encryption_customer_algorithm: oenc(os(o.sse_customer_algorithm)), x_amz_server_side_encryption_customer_key_md5: oenc(os(o.sse_customer_key_md5)), x_amz_storage_class: oenc(os(o.storage_class)), x_amz_tagging_count: oenc(odisp(o.tag_count)), x_amz_version_id: oenc(os(o.version_id)), x_amz_website_redirect_location: oenc(os(o.website_redirect_location)), clean: true })
    &&& match o.body { Some(b) => r.bd == stream_body(b), None => r.bd@ == Seq::<u8>::empty() }
    &&& meta_out(r.hd@, omap(o.metadata))
}
/// every value can be a header value
pub open spec fn out_get_object_can(o: GetObjectOutput) -> bool {
    &&& can(odisp(o.delete_marker))
    &&& can(os(o.accept_ranges))
    &&& can(os(o.expiration))
    &&& can(os(o.restore))
    &&& (o.last_modified is Some ==> rfc3339(o.last_modified->Some_0@) is Some)
    &&& can(odate(os(o.last_modified)))
    &&& can(odisp(o.content_length))
    &&& can(os(o.e_tag))
    &&& can(odisp(o.missing_meta))
    &&& can(os(o.version_id))
    &&& can(os(o.cache_control))
    &&& can(os(o.content_disposition))
    &&& can(os(o.content_encoding))
    &&& can(os(o.content_language))
    &&& can(os(o.content_type))
    &&& can(os(o.expires))
    &&& can(os(o.website_redirect_location))
    &&& can(os(o.server_side_encryption))
    &&& can(os(o.ssekms_key_id))
    &&& can(os(o.sse_customer_algorithm))
    &&& can(os(o.sse_customer_key_md5))
    &&& can(os(o.storage_class))
    &&& can(os(o.request_charged))
    &&& can(os(o.replication_status))
    &&& can(odisp(o.parts_count))
    &&& can(os(o.object_lock_mode))
    &&& can(os(o.object_lock_retain_until_date))
    &&& can(os(o.object_lock_legal_hold_status))
    &&& can(os(o.content_range))
    &&& can(odisp(o.tag_count))
    &&& meta_can(o.metadata)
    &&& true
}
impl S3Output for GetObjectOutput {
    open spec fn out_ok(self, r: Response) -> bool { out_get_object(self, r) }
    open spec fn out_err(self, e: S3Error) -> bool { e.code() is InternalError && !out_get_object_can(self) }
    fn try_into_response(self) -> (r: S3Result<Response>) { out_get_object_resp(self) }
}
//@ fn src/ops/get_object.rs GetObjectOutput=S3Output::try_into_response
//@ nostrlit
//@ comb map option
//@ hide hrec opt_header hv meta_headers has hvo oenc is_meta encode_utf8 nometa meta_out
//@ sig pub fn out_get_object_resp(self_: GetObjectOutput) -> (r: S3Result<Response>)
//@ hint start
    proof { axiom_xml_empty(); lemma_hids(); }
    broadcast use {hrl::lemma_hr_x_amz_delete_marker, hrl::lemma_hr_accept_ranges, hrl::lemma_hr_x_amz_expiration, hrl::lemma_hr_x_amz_restore, hrl::lemma_hr_last_modified, hrl::lemma_hr_content_length, hrl::lemma_hr_etag, hrl::lemma_hr_x_amz_missing_meta, hrl::lemma_hr_x_amz_version_id, hrl::lemma_hr_cache_control, hrl::lemma_hr_content_disposition, hrl::lemma_hr_content_encoding, hrl::lemma_hr_content_language, hrl::lemma_hr_content_type, hrl::lemma_hr_expires, hrl::lemma_hr_x_amz_website_redirect_location, hrl::lemma_hr_x_amz_server_side_encryption, hrl::lemma_hr_x_amz_server_side_encryption_aws_kms_key_id, hrl::lemma_hr_x_amz_server_side_encryption_customer_algorithm, hrl::lemma_hr_x_amz_server_side_encryption_customer_key_md5, hrl::lemma_hr_x_amz_storage_class, hrl::lemma_hr_x_amz_request_charged, hrl::lemma_hr_x_amz_replication_status, hrl::lemma_hr_x_amz_mp_parts_count, hrl::lemma_hr_x_amz_object_lock_mode, hrl::lemma_hr_x_amz_object_lock_retain_until_date, hrl::lemma_hr_x_amz_object_lock_legal_hold, hrl::lemma_hr_content_range, hrl::lemma_hr_x_amz_tagging_count, hrl::lemma_hr_empty, hrl::lemma_hr_meta, hvl::lemma_hvo};
    let ghost o = self_;
//@ spec
    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },
//@ text
}
//@ text
pub mod op_complete_multipart_upload {
use super::*;
    broadcast use {bc::lemma_empty_chars, hvl::lemma_nometa_opt, hvl::lemma_nometa_empty, hvl::lemma_meta_none, hvl::lemma_meta_some, hvl::lemma_has_meta, hvl::lemma_hvo, hvl::lemma_hv_opt, hvl::lemma_hv_empty, hvl::lemma_has_opt, hvl::lemma_has_empty};
/// what the response reports of the output
pub open spec fn out_complete_multipart_upload(o: CompleteMultipartUploadOutput, r: Response) -> bool {
    &&& r.st == StatusCode::OK
    &&& hv(r.hd@, "x-amz-expiration"@) == oenc(os(o.expiration))
    &&& hv(r.hd@, "x-amz-server-side-encryption"@) == oenc(os(o.server_side_encryption))
    &&& hv(r.hd@, "x-amz-server-side-encryption-aws-kms-key-id"@) == oenc(os(o.ssekms_key_id))
    &&& hv(r.hd@, "x-amz-version-id"@) == oenc(os(o.version_id))
    &&& hv(r.hd@, "x-amz-request-charged"@) == oenc(os(o.request_charged))
    &&& hv(r.hd@, "content-type"@) == oenc(Some("text/xml"@))
    &&& xml_evs(r.bd@) == doc_complete_multipart_upload(o)
    &&& forall|h: Seq<char>| #[trigger] has(r.hd@, h) ==> h == "x-amz-expiration"@ || h == "x-amz-server-side-encryption"@ || h == "x-amz-server-side-encryption-aws-kms-key-id"@ || h == "x-amz-version-id"@ || h == "x-amz-request-charged"@ || h == "content-type"@
}
/// every value can be a header value
pub open spec fn out_complete_multipart_upload_can(o: CompleteMultipartUploadOutput) -> bool {
    &&& can(os(o.expiration))
    &&& can(os(o.server_side_encryption))
    &&& can(os(o.ssekms_key_id))
    &&& can(os(o.version_id))
    &&& can(os(o.request_charged))
    &&& true
}
impl S3Output for CompleteMultipartUploadOutput {
    open spec fn out_ok(self, r: Response) -> bool { out_complete_multipart_upload(self, r) }
    open spec fn out_err(self, e: S3Error) -> bool { e.code() is InternalError }
    fn try_into_response(self) -> (r: S3Result<Response>) { out_complete_multipart_upload_resp(self) }
}
//@ fn src/ops/complete_multipart_upload.rs CompleteMultipartUploadOutput=S3Output::try_into_response
//@ nostrlit
//@ comb map option
//@ hide ev_push ev_opt opt_header hv meta_headers has hvo oenc is_meta encode_utf8 nometa meta_out
//@ sig pub fn out_complete_multipart_upload_resp(self_: CompleteMultipartUploadOutput) -> (r: S3Result<Response>)
//@ hint start
    proof { axiom_xml_empty(); lemma_hids(); }
    let ghost o = self_;
//@ spec
    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },
//@ text
}
//@ text
pub mod op_create_multipart_upload {
use super::*;
    broadcast use {bc::lemma_empty_chars, hvl::lemma_nometa_opt, hvl::lemma_nometa_empty, hvl::lemma_meta_none, hvl::lemma_meta_some, hvl::lemma_has_meta, hvl::lemma_hvo, hvl::lemma_hv_opt, hvl::lemma_hv_empty, hvl::lemma_has_opt, hvl::lemma_has_empty};
/// what the response reports of the output
pub open spec fn out_create_multipart_upload(o: CreateMultipartUploadOutput, r: Response) -> bool {
    &&& r.st == StatusCode::OK
    &&& hv(r.hd@, "x-amz-abort-date"@) == oenc(os(o.abort_date))
    &&& hv(r.hd@, "x-amz-abort-rule-id"@) == oenc(os(o.abort_rule_id))
    &&& hv(r.hd@, "x-amz-server-side-encryption"@) == oenc(os(o.server_side_encryption))
    &&& hv(r.hd@, "x-amz-server-side-encryption-aws-kms-key-id"@) == oenc(os(o.ssekms_key_id))
    &&& hv(r.hd@, "x-amz-server-side-encryption-customer-algorithm"@) == oenc(os(o.sse_customer_algorithm))
    &&& hv(r.hd@, "x-amz-server-side-encryption-customer-key-md5"@) == oenc(os(o.sse_customer_key_md5))
    &&& hv(r.hd@, "x-amz-server-side-encryption-context"@) == oenc(os(o.ssekms_encryption_context))
    &&& hv(r.hd@, "x-amz-request-charged"@) == oenc(os(o.request_charged))
    &&& hv(r.hd@, "content-type"@) == oenc(Some("text/xml"@))
    &&& xml_evs(r.bd@) == doc_create_multipart_upload(o)
    &&& forall|h: Seq<char>| #[trigger] has(r.hd@, h) ==> h == "x-amz-abort-date"@ || h == "x-amz-abort-rule-id"@ || h == "x-amz-server-side-encryption"@ || h == "x-amz-server-side-encryption-aws-kms-key-id"@ || h == "x-amz-server-side-encryption-customer-algorithm"@ || h == "x-amz-server-side-encryption-customer-key-md5"@ || h == "x-amz-server-side-encryption-context"@ || h == "x-amz-request-charged"@ || h == "content-type"@
}
/// every value can be a header value
pub open spec fn out_create_multipart_upload_can(o: CreateMultipartUploadOutput) -> bool {
    &&& can(os(o.abort_date))
    &&& can(os(o.abort_rule_id))
    &&& can(os(o.server_side_encryption))
    &&& can(os(o.ssekms_key_id))
    &&& can(os(o.sse_customer_algorithm))
    &&& can(os(o.sse_customer_key_md5))
    &&& can(os(o.ssekms_encryption_context))
    &&& can(os(o.request_charged))
    &&& true
}
impl S3Output for CreateMultipartUploadOutput {
    open spec fn out_ok(self, r: Response) -> bool { out_create_multipart_upload(self, r) }
    open spec fn out_err(self, e: S3Error) -> bool { e.code() is InternalError }
    fn try_into_response(self) -> (r: S3Result<Response>) { out_create_multipart_upload_resp(self) }
}
//@ fn src/ops/create_multipart_upload.rs CreateMultipartUploadOutput=S3Output::try_into_response
//@ nostrlit
//@ comb map option
//@ hide ev_push ev_opt opt_header hv meta_headers has hvo oenc is_meta encode_utf8 nometa meta_out
//@ sig pub fn out_create_multipart_upload_resp(self_: CreateMultipartUploadOutput) -> (r: S3Result<Response>)
//@ hint start
    proof { axiom_xml_empty(); lemma_hids(); }
    let ghost o = self_;
//@ spec
    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },
//@ text
}
//@ text
pub mod op_copy_object {
use super::*;
    broadcast use {bc::lemma_empty_chars, hvl::lemma_nometa_opt, hvl::lemma_nometa_empty, hvl::lemma_meta_none, hvl::lemma_meta_some, hvl::lemma_has_meta, hvl::lemma_hvo, hvl::lemma_hv_opt, hvl::lemma_hv_empty, hvl::lemma_has_opt, hvl::lemma_has_empty};
/// what the response reports of the output
pub open spec fn out_copy_object(o: CopyObjectOutput, r: Response) -> bool {
    &&& r.st == StatusCode::OK
    &&& hv(r.hd@, "x-amz-expiration"@) == oenc(os(o.expiration))
    &&& hv(r.hd@, "x-amz-copy-source-version-id"@) == oenc(os(o.copy_source_version_id))
    &&& hv(r.hd@, "x-amz-version-id"@) == oenc(os(o.version_id))
    &&& hv(r.hd@, "x-amz-server-side-encryption"@) == oenc(os(o.server_side_encryption))
    &&& hv(r.hd@, "x-amz-server-side-encryption-aws-kms-key-id"@) == oenc(os(o.ssekms_key_id))
    &&& hv(r.hd@, "x-amz-server-side-encryption-customer-algorithm"@) == oenc(os(o.sse_customer_algorithm))
    &&& hv(r.hd@, "x-amz-server-side-encryption-customer-key-md5"@) == oenc(os(o.sse_customer_key_md5))
    &&& hv(r.hd@, "x-amz-server-side-encryption-context"@) == oenc(os(o.ssekms_encryption_context))
    &&& hv(r.hd@, "x-amz-request-charged"@) == oenc(os(o.request_charged))
    &&& hv(r.hd@, "content-type"@) == oenc(Some("text/xml"@))
    &&& xml_evs(r.bd@) == doc_copy_object(o)
    &&& forall|h: Seq<char>| #[trigger] has(r.hd@, h) ==> h == "x-amz-expiration"@ || h == "x-amz-copy-source-version-id"@ || h == "x-amz-version-id"@ || h == "x-amz-server-side-encryption"@ || h == "x-amz-server-side-encryption-aws-kms-key-id"@ || h == "x-amz-server-side-encryption-customer-algorithm"@ || h == "x-amz-server-side-encryption-customer-key-md5"@ || h == "x-amz-server-side-encryption-context"@ || h == "x-amz-request-charged"@ || h == "content-type"@
}
/// every value can be a header value
pub open spec fn out_copy_object_can(o: CopyObjectOutput) -> bool {
    &&& can(os(o.expiration))
    &&& can(os(o.copy_source_version_id))
    &&& can(os(o.version_id))
    &&& can(os(o.server_side_encryption))
    &&& can(os(o.ssekms_key_id))
    &&& can(os(o.sse_customer_algorithm))
    &&& can(os(o.sse_customer_key_md5))
    &&& can(os(o.ssekms_encryption_context))
    &&& can(os(o.request_charged))
    &&& true
}
impl S3Output for CopyObjectOutput {
    open spec fn out_ok(self, r: Response) -> bool { out_copy_object(self, r) }
    open spec fn out_err(self, e: S3Error) -> bool { e.code() is InternalError }
    fn try_into_response(self) -> (r: S3Result<Response>) { out_copy_object_resp(self) }
}
//@ fn src/ops/copy_object.rs CopyObjectOutput=S3Output::try_into_response
//@ nostrlit
//@ comb map option
//@ hide ev_push ev_opt opt_header hv meta_headers has hvo oenc is_meta encode_utf8 nometa meta_out
//@ sig pub fn out_copy_object_resp(self_: CopyObjectOutput) -> (r: S3Result<Response>)
//@ hint start
    proof { axiom_xml_empty(); lemma_hids(); }
    let ghost o = self_;
//@ spec
    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },
//@ text
}
//@ text
pub mod op_get_bucket_location {
use super::*;
    broadcast use {bc::lemma_empty_chars, hvl::lemma_nometa_opt, hvl::lemma_nometa_empty, hvl::lemma_meta_none, hvl::lemma_meta_some, hvl::lemma_has_meta, hvl::lemma_hvo, hvl::lemma_hv_opt, hvl::lemma_hv_empty, hvl::lemma_has_opt, hvl::lemma_has_empty};
/// what the response reports of the output
pub open spec fn out_get_bucket_location(o: GetBucketLocationOutput, r: Response) -> bool {
    &&& r.st == StatusCode::OK
    &&& hv(r.hd@, "content-type"@) == oenc(Some("text/xml"@))
    &&& xml_evs(r.bd@) == doc_get_bucket_location(o)
    &&& forall|h: Seq<char>| #[trigger] has(r.hd@, h) ==> h == "content-type"@
}
/// every value can be a header value
pub open spec fn out_get_bucket_location_can(o: GetBucketLocationOutput) -> bool {
    &&& true
}
impl S3Output for GetBucketLocationOutput {
    open spec fn out_ok(self, r: Response) -> bool { out_get_bucket_location(self, r) }
    open spec fn out_err(self, e: S3Error) -> bool { e.code() is InternalError }
    fn try_into_response(self) -> (r: S3Result<Response>) { out_get_bucket_location_resp(self) }
}
//@ fn src/ops/get_bucket_location.rs GetBucketLocationOutput=S3Output::try_into_response
//@ nostrlit
//@ comb map option
//@ hide ev_push ev_elem opt_header hv meta_headers has hvo oenc is_meta encode_utf8 nometa meta_out
//@ sig pub fn out_get_bucket_location_resp(self_: GetBucketLocationOutput) -> (r: S3Result<Response>)
//@ hint start
    proof { axiom_xml_empty(); lemma_hids(); }
    let ghost o = self_;
//@ spec
    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },
//@ text
}
//@ text
pub mod op_delete_objects {
use super::*;
    broadcast use {bc::lemma_empty_chars, hvl::lemma_nometa_opt, hvl::lemma_nometa_empty, hvl::lemma_meta_none, hvl::lemma_meta_some, hvl::lemma_has_meta, hvl::lemma_hvo, hvl::lemma_hv_opt, hvl::lemma_hv_empty, hvl::lemma_has_opt, hvl::lemma_has_empty};
/// what the response reports of the output
pub open spec fn out_delete_objects(o: DeleteObjectsOutput, r: Response) -> bool {
    &&& r.st == StatusCode::OK
    &&& hv(r.hd@, "x-amz-request-charged"@) == oenc(os(o.request_charged))
    &&& hv(r.hd@, "content-type"@) == oenc(Some("text/xml"@))
    &&& xml_evs(r.bd@) == doc_delete_objects(o)
    &&& forall|h: Seq<char>| #[trigger] has(r.hd@, h) ==> h == "x-amz-request-charged"@ || h == "content-type"@
}
/// every value can be a header value
pub open spec fn out_delete_objects_can(o: DeleteObjectsOutput) -> bool {
    &&& can(os(o.request_charged))
    &&& true
}
impl S3Output for DeleteObjectsOutput {
    open spec fn out_ok(self, r: Response) -> bool { out_delete_objects(self, r) }
    open spec fn out_err(self, e: S3Error) -> bool { e.code() is InternalError }
    fn try_into_response(self) -> (r: S3Result<Response>) { out_delete_objects_resp(self) }
}
//@ fn src/ops/delete_objects.rs DeleteObjectsOutput=S3Output::try_into_response
//@ nostrlit
//@ comb map option
//@ hide ev_push ev_opt opt_header hv meta_headers has hvo oenc is_meta encode_utf8 nometa meta_out
//@ sig pub fn out_delete_objects_resp(self_: DeleteObjectsOutput) -> (r: S3Result<Response>)
//@ hint start
    proof { axiom_xml_empty(); lemma_hids(); }
    let ghost o = self_;
//@ hint before_loop0
    let ghost w0 = h_set_xml_body_w;
//@ loop 0
        invariant it0.v() == o.deleted->Some_0@, 0 <= it0.i() <= it0.v().len(), *final(h_set_xml_body_w.out) == *final(w0.out),
            xml_evs(h_set_xml_body_w.out@) == ev_deleted(xml_evs(w0.out@), it0.v().take(it0.i())),
        ensures xml_evs(h_set_xml_body_w.out@) == ev_deleted(xml_evs(w0.out@), o.deleted->Some_0@),
        decreases it0.v().len() - it0.i(),
//@ hint loop0_body
    proof { assert(it0.v().take(it0.i()).drop_last() =~= it0.v().take(it0.i() - 1)); }
//@ hint loop0_exit
    proof { assert(it0.v().take(it0.i()) =~= it0.v()); }
//@ hint before_loop1
    let ghost w1 = h_set_xml_body_w;
//@ loop 1
        invariant it1.v() == o.errors->Some_0@, 0 <= it1.i() <= it1.v().len(), *final(h_set_xml_body_w.out) == *final(w1.out),
            xml_evs(h_set_xml_body_w.out@) == ev_errors(xml_evs(w1.out@), it1.v().take(it1.i())),
        ensures xml_evs(h_set_xml_body_w.out@) == ev_errors(xml_evs(w1.out@), o.errors->Some_0@),
        decreases it1.v().len() - it1.i(),
//@ hint loop1_body
    proof { assert(it1.v().take(it1.i()).drop_last() =~= it1.v().take(it1.i() - 1)); }
//@ hint loop1_exit
    proof { assert(it1.v().take(it1.i()) =~= it1.v()); }
//@ spec
    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },
//@ text
}
//@ text
pub mod op_list_buckets {
use super::*;
    broadcast use {bc::lemma_empty_chars, hvl::lemma_nometa_opt, hvl::lemma_nometa_empty, hvl::lemma_meta_none, hvl::lemma_meta_some, hvl::lemma_has_meta, hvl::lemma_hvo, hvl::lemma_hv_opt, hvl::lemma_hv_empty, hvl::lemma_has_opt, hvl::lemma_has_empty};
/// what the response reports of the output
pub open spec fn out_list_buckets(o: ListBucketsOutput, r: Response) -> bool {
    &&& r.st == StatusCode::OK
    &&& hv(r.hd@, "content-type"@) == oenc(Some("text/xml"@))
    &&& xml_evs(r.bd@) == doc_list_buckets(o)
    &&& forall|h: Seq<char>| #[trigger] has(r.hd@, h) ==> h == "content-type"@
}
/// every value can be a header value
pub open spec fn out_list_buckets_can(o: ListBucketsOutput) -> bool {
    &&& true
}
impl S3Output for ListBucketsOutput {
    open spec fn out_ok(self, r: Response) -> bool { out_list_buckets(self, r) }
    open spec fn out_err(self, e: S3Error) -> bool { e.code() is InternalError }
    fn try_into_response(self) -> (r: S3Result<Response>) { out_list_buckets_resp(self) }
}
//@ fn src/ops/list_buckets.rs ListBucketsOutput=S3Output::try_into_response
//@ nostrlit
//@ comb map option
//@ hide ev_push ev_opt opt_header hv meta_headers has hvo oenc is_meta encode_utf8 nometa meta_out
//@ sig pub fn out_list_buckets_resp(self_: ListBucketsOutput) -> (r: S3Result<Response>)
//@ hint start
    proof { axiom_xml_empty(); lemma_hids(); }
    let ghost o = self_;
//@ hint before_loop0
    let ghost w0 = h_set_xml_body_w;
//@ loop 0
        invariant it0.v() == o.buckets->Some_0@, 0 <= it0.i() <= it0.v().len(), *final(h_set_xml_body_w.out) == *final(w0.out),
            xml_evs(h_set_xml_body_w.out@) == ev_buckets(xml_evs(w0.out@), it0.v().take(it0.i())),
        ensures xml_evs(h_set_xml_body_w.out@) == ev_buckets(xml_evs(w0.out@), o.buckets->Some_0@),
        decreases it0.v().len() - it0.i(),
//@ hint loop0_body
    proof { assert(it0.v().take(it0.i()).drop_last() =~= it0.v().take(it0.i() - 1)); }
//@ hint loop0_exit
    proof { assert(it0.v().take(it0.i()) =~= it0.v()); }
//@ spec
    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },
//@ text
}
//@ text
pub mod op_list_objects {
use super::*;
    broadcast use {bc::lemma_empty_chars, hvl::lemma_nometa_opt, hvl::lemma_nometa_empty, hvl::lemma_meta_none, hvl::lemma_meta_some, hvl::lemma_has_meta, hvl::lemma_hvo, hvl::lemma_hv_opt, hvl::lemma_hv_empty, hvl::lemma_has_opt, hvl::lemma_has_empty};
/// what the response reports of the output
pub open spec fn out_list_objects(o: ListObjectsOutput, r: Response) -> bool {
    &&& r.st == StatusCode::OK
    &&& hv(r.hd@, "content-type"@) == oenc(Some("text/xml"@))
    &&& xml_evs(r.bd@) == doc_list_objects(o)
    &&& forall|h: Seq<char>| #[trigger] has(r.hd@, h) ==> h == "content-type"@
}
/// every value can be a header value
pub open spec fn out_list_objects_can(o: ListObjectsOutput) -> bool {
    &&& true
}
impl S3Output for ListObjectsOutput {
    open spec fn out_ok(self, r: Response) -> bool { out_list_objects(self, r) }
    open spec fn out_err(self, e: S3Error) -> bool { e.code() is InternalError }
    fn try_into_response(self) -> (r: S3Result<Response>) { out_list_objects_resp(self) }
}
//@ fn src/ops/list_objects.rs ListObjectsOutput=S3Output::try_into_response
//@ nostrlit
//@ comb map option
//@ hide ev_push ev_opt opt_header hv meta_headers has hvo oenc is_meta encode_utf8 nometa meta_out
//@ sig pub fn out_list_objects_resp(self_: ListObjectsOutput) -> (r: S3Result<Response>)
//@ hint start
    proof { axiom_xml_empty(); lemma_hids(); }
    let ghost o = self_;
//@ hint before_loop0
    let ghost w0 = h_set_xml_body_w;
//@ loop 0
        invariant it0.v() == o.contents->Some_0@, 0 <= it0.i() <= it0.v().len(), *final(h_set_xml_body_w.out) == *final(w0.out),
            xml_evs(h_set_xml_body_w.out@) == ev_contents(xml_evs(w0.out@), it0.v().take(it0.i())),
        ensures xml_evs(h_set_xml_body_w.out@) == ev_contents(xml_evs(w0.out@), o.contents->Some_0@),
        decreases it0.v().len() - it0.i(),
//@ hint loop0_body
    proof { assert(it0.v().take(it0.i()).drop_last() =~= it0.v().take(it0.i() - 1)); }
//@ hint loop0_exit
    proof { assert(it0.v().take(it0.i()) =~= it0.v()); }
//@ hint before_loop1
    let ghost w1 = h_set_xml_body_w;
//@ loop 1
        invariant it1.v() == o.common_prefixes->Some_0@, 0 <= it1.i() <= it1.v().len(), *final(h_set_xml_body_w.out) == *final(w1.out),
            xml_evs(h_set_xml_body_w.out@) == ev_prefixes(xml_evs(w1.out@), it1.v().take(it1.i())),
        ensures xml_evs(h_set_xml_body_w.out@) == ev_prefixes(xml_evs(w1.out@), o.common_prefixes->Some_0@),
        decreases it1.v().len() - it1.i(),
//@ hint loop1_body
    proof { assert(it1.v().take(it1.i()).drop_last() =~= it1.v().take(it1.i() - 1)); }
//@ hint loop1_exit
    proof { assert(it1.v().take(it1.i()) =~= it1.v()); }
//@ spec
    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },
//@ text
}
//@ text
pub mod op_list_objects_v2 {
use super::*;
    broadcast use {bc::lemma_empty_chars, hvl::lemma_nometa_opt, hvl::lemma_nometa_empty, hvl::lemma_meta_none, hvl::lemma_meta_some, hvl::lemma_has_meta, hvl::lemma_hvo, hvl::lemma_hv_opt, hvl::lemma_hv_empty, hvl::lemma_has_opt, hvl::lemma_has_empty};
/// what the response reports of the output
pub open spec fn out_list_objects_v2(o: ListObjectsV2Output, r: Response) -> bool {
    &&& r.st == StatusCode::OK
    &&& hv(r.hd@, "content-type"@) == oenc(Some("text/xml"@))
    &&& xml_evs(r.bd@) == doc_list_objects_v2(o)
    &&& forall|h: Seq<char>| #[trigger] has(r.hd@, h) ==> h == "content-type"@
}
/// every value can be a header value
pub open spec fn out_list_objects_v2_can(o: ListObjectsV2Output) -> bool {
    &&& true
}
impl S3Output for ListObjectsV2Output {
    open spec fn out_ok(self, r: Response) -> bool { out_list_objects_v2(self, r) }
    open spec fn out_err(self, e: S3Error) -> bool { e.code() is InternalError }
    fn try_into_response(self) -> (r: S3Result<Response>) { out_list_objects_v2_resp(self) }
}
//@ fn src/ops/list_objects_v2.rs ListObjectsV2Output=S3Output::try_into_response
//@ nostrlit
//@ comb map option
//@ hide ev_push ev_opt opt_header hv meta_headers has hvo oenc is_meta encode_utf8 nometa meta_out
//@ sig pub fn out_list_objects_v2_resp(self_: ListObjectsV2Output) -> (r: S3Result<Response>)
//@ hint start
    proof { axiom_xml_empty(); lemma_hids(); }
    let ghost o = self_;
//@ hint before_loop0
    let ghost w0 = h_set_xml_body_w;
//@ loop 0
        invariant it0.v() == o.contents->Some_0@, 0 <= it0.i() <= it0.v().len(), *final(h_set_xml_body_w.out) == *final(w0.out),
            xml_evs(h_set_xml_body_w.out@) == ev_contents(xml_evs(w0.out@), it0.v().take(it0.i())),
        ensures xml_evs(h_set_xml_body_w.out@) == ev_contents(xml_evs(w0.out@), o.contents->Some_0@),
        decreases it0.v().len() - it0.i(),
//@ hint loop0_body
    proof { assert(it0.v().take(it0.i()).drop_last() =~= it0.v().take(it0.i() - 1)); }
//@ hint loop0_exit
    proof { assert(it0.v().take(it0.i()) =~= it0.v()); }
//@ hint before_loop1
    let ghost w1 = h_set_xml_body_w;
//@ loop 1
        invariant it1.v() == o.common_prefixes->Some_0@, 0 <= it1.i() <= it1.v().len(), *final(h_set_xml_body_w.out) == *final(w1.out),
            xml_evs(h_set_xml_body_w.out@) == ev_prefixes(xml_evs(w1.out@), it1.v().take(it1.i())),
        ensures xml_evs(h_set_xml_body_w.out@) == ev_prefixes(xml_evs(w1.out@), o.common_prefixes->Some_0@),
        decreases it1.v().len() - it1.i(),
//@ hint loop1_body
    proof { assert(it1.v().take(it1.i()).drop_last() =~= it1.v().take(it1.i() - 1)); }
//@ hint loop1_exit
    proof { assert(it1.v().take(it1.i()) =~= it1.v()); }
//@ spec
    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },
//@ text
}
