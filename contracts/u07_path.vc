//@ include base.rs
//@ include path_spec.rs
//@ item src/path.rs S3Path
//@ item src/path.rs S3PathErrorKind #[derive(Clone, Copy)]
//@ item src/path.rs ParseS3PathError
//@ item src/headers/amz_copy_source.rs AmzCopySource #[allow(inconsistent_fields)]
//@ item src/headers/amz_copy_source.rs ParseAmzCopySourceError
//@ macro static_regex
($re:literal) => { vregex($re) };
//@ rewrite . iter () . all ==> . vall
//@ method split_once vsplit_once
//@ method parse vparse_ip turbofish
//@ method starts_with vstarts_with
//@ method len vlen
//@ comb map option
//@ text
impl<'a> S3Path<'a> {
//@ fn src/path.rs S3Path::check_bucket_name
//@ sig pub fn check_bucket_name(name: &str) -> (r: bool)
//@ spec
    ensures r == bucket_name_ok(name@),
//@ closure 0
|cp1: &u8| -> (o: bool) ensures o == bucket_byte(*cp1)
//@ fn src/path.rs S3Path::check_key
//@ sig pub fn check_key(key: &str) -> (r: bool)
//@ spec
    ensures r == (encode_utf8(key@).len() <= 1024),
//@ fn src/path.rs S3Path::try_from_path
//@ sig pub fn try_from_path(path: &'a str) -> (r: Result<Self, ParseS3PathError>)
//@ spec
    ensures path_spec(path@, r),
//@ hint start
    proof {
        lemma_first_pos(path@, '/');
        if path@.len() > 0 && path@[0] == '/' {
            let q = path@.subrange(1, path@.len() as int);
            assert(path@.subrange(0, 0) =~= Seq::<char>::empty());
            lemma_first_pos(q, '/');
            assert(q.subrange(0, q.len() as int) =~= q);
        }
    }
//@ text
}
// ---------------------------------------------------------------- x-amz-copy-source
#[verifier::external_body]
pub struct Regex { _p: () }
#[verifier::external_body]
pub struct Captures<'a> { _p: &'a () }
#[verifier::external_body]
pub struct Match<'a> { _p: &'a () }
impl<'a> Match<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == self.text() { unimplemented!() }
}
impl<'a> Captures<'a> {
    pub uninterp spec fn group(&self, i: int) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<Match<'a>>)
        ensures match r { Some(m) => self.group(i as int) == Some(m.text()), None => self.group(i as int) is None }
    { unimplemented!() }
}
impl Regex {
    pub uninterp spec fn pattern(&self) -> Seq<char>;
    /// trusted: what regex does with these two patterns
    #[verifier::external_body]
    pub fn captures<'a>(&self, h: &'a str) -> (r: Option<Captures<'a>>)
        ensures self.pattern() == "^(.+?)/(.+)$"@ ==> (match r {
            None => split_source(h@) is None,
            Some(c) => split_source(h@) is Some && c.group(1) == Some(split_source(h@).unwrap().0) && c.group(2) == Some(split_source(h@).unwrap().1),
        }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, h: &str) -> (r: bool)
        ensures self.pattern() == ".+?/.+"@ ==> r == has_slash_inside(h@),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vregex(p: &str) -> (r: &'static Regex) ensures r.pattern() == p@ { unimplemented!() }
/// the text around the first '/' that has something on both sides; None when there is none or the text has several lines
pub open spec fn split_source(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    if s.len() < 3 || s.contains('\n') { None } else {
        let k = 1 + first_pos(s.subrange(1, s.len() as int), '/');
        if k + 1 >= s.len() { None } else { Some((s.subrange(0, k), s.subrange(k + 1, s.len() as int))) }
    }
}
/// a '/' with a character of its line before and after it
pub open spec fn has_slash_inside(s: Seq<char>) -> bool {
    exists|k: int| 0 < k < s.len() - 1 && #[trigger] s[k] == '/' && s[k - 1] != '\n' && s[k + 1] != '\n'
}
impl<'a> AmzCopySource<'a> {
//@ fn src/headers/amz_copy_source.rs AmzCopySource::try_match
//@ sig pub fn try_match(header: &str) -> (r: Result<(), ParseAmzCopySourceError>)
//@ spec
    ensures r is Ok <==> has_slash_inside(header@),
//@ fn src/headers/amz_copy_source.rs AmzCopySource::from_header_str
//@ sig pub fn from_header_str(header: &'a str) -> (r: Result<Self, ParseAmzCopySourceError>)
//@ spec
    ensures ({
        match split_source(header@) {
            None => r is Err,
            Some((b, k)) => if bucket_name_ok(b) && encode_utf8(k).len() <= 1024 {
                r is Ok && r->Ok_0 is Bucket && r->Ok_0->Bucket_bucket@ == b && r->Ok_0->Bucket_key@ == k
            } else { r is Err },
        }
    }),
//@ text
}
