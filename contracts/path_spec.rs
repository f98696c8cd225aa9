// C13
pub open spec fn lower_or_digit(b: u8) -> bool { 97 <= b <= 122 || 48 <= b <= 57 }
pub open spec fn bucket_byte(b: u8) -> bool { lower_or_digit(b) || b == 45 || b == 46 }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' }
pub open spec fn dec_val(s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { dec_val(s.drop_last()) * 10 + (s.last() as int - '0' as int) }
}
/// decimal octet without leading zero
pub open spec fn octet(s: Seq<char>) -> bool {
    1 <= s.len() <= 3 && all_digits(s) && dec_val(s) <= 255 && (s.len() > 1 ==> s[0] != '0')
}
pub open spec fn is_ipv4(s: Seq<char>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>|
        octet(a) && octet(b) && octet(c) && octet(d) && s == #[trigger] (a + seq!['.'] + b + seq!['.'] + c + seq!['.'] + d)
}
pub open spec fn bucket_name_ok(n: Seq<char>) -> bool {
    let b = encode_utf8(n);
    &&& 3 <= b.len() <= 63
    &&& forall|i: int| 0 <= i < b.len() ==> bucket_byte(#[trigger] b[i])
    &&& lower_or_digit(b[0])
    &&& lower_or_digit(b.last())
    &&& !is_ipv4(n)
    &&& !is_prefix("xn--"@, n)
}
pub open spec fn path_kind_err<T>(r: Result<T, ParseS3PathError>) -> S3PathErrorKind
{ r->Err_0.kind }

pub open spec fn path_spec(p: Seq<char>, r: Result<S3Path, ParseS3PathError>) -> bool {
    if p.len() == 0 || p[0] != '/' {
        r is Err && r->Err_0.kind is InvalidPath
    } else {
        let q = p.subrange(1, p.len() as int);
        let i = first_pos(q, '/');
        let b = q.subrange(0, i);
        let k = if i < q.len() { q.subrange(i + 1, q.len() as int) } else { Seq::empty() };
        if q.len() == 0 { r is Ok && r->Ok_0 is Root }
        else if !bucket_name_ok(b) { r is Err && r->Err_0.kind is InvalidBucketName }
        else if k.len() == 0 { r is Ok && r->Ok_0 is Bucket && r->Ok_0->Bucket_bucket@ == b }
        else if encode_utf8(k).len() > 1024 { r is Err && r->Err_0.kind is KeyTooLong }
        else { r is Ok && r->Ok_0 is Object && r->Ok_0->Object_bucket@ == b && r->Ok_0->Object_key@ == k }
    }
}
pub trait VParseIp { fn vparse_ip(&self) -> (r: Result<(), ()>); }
impl VParseIp for str {
    /// trusted: str::parse::<IpAddr> restricted to the characters of bucket names accepts exactly the dotted quads
    #[verifier::external_body]
    fn vparse_ip(&self) -> (r: Result<(), ()>)
        ensures (forall|i: int| 0 <= i < encode_utf8(self@).len() ==> bucket_byte(#[trigger] encode_utf8(self@)[i])) ==> (r is Ok <==> is_ipv4(self@)),
    { self.parse::<std::net::IpAddr>().map(|_| ()).map_err(|_| ()) }
}
