//@ include base.rs
//@ include ascii.rs
//@ include num.rs
//@ include nom.rs
//@ into
//@ nom
//@ method parse vparse turbofish
//@ method into_vec vinto_vec
//@ comb map_err result
//@ rewrite . iter () . copied () . all ==> . vall_copied
//@ rewrite . iter () . all ==> . vall
//@ rewrite . bytes () . all ==> . vbytes_all
//@ rewrite str :: parse :: < u64 > ==> vparse :: < u64 >
//@ rewrite chrono :: LocalResult ==> LocalResult
//@ rewrite u8 :: is_ascii_digit ==> | b : & u8 | -> (r : bool) ensures r == (48 <= *b <= 57) { b.is_ascii_digit() }
//@ rewrite hyper :: header :: ==>
//@ known vparse vinto_vec
//@ item src/headers/amz_date.rs AmzDate #[derive(Clone, Copy)]
//@ item src/headers/amz_date.rs ParseAmzDateError
//@ item src/headers/amz_content_sha256.rs AmzContentSha256
//@ item src/headers/amz_content_sha256.rs ParseAmzContentSha256Error
//@ item src/headers/range.rs Range #[allow(inconsistent_fields)]
//@ item src/headers/range.rs ParseRangeError
//@ item src/headers/authorization_v4.rs AuthorizationV4
//@ item src/headers/authorization_v4.rs CredentialV4
//@ item src/headers/authorization_v4.rs ParseAuthorizationError
//@ text
// ---------------------------------------------------------------- x-amz-date
pub assume_specification[char::is_ascii_whitespace](c: &char) -> (r: bool) ensures r == vsp_is_ascii_whitespace(*c);
/// space, tab, line feed, form feed, carriage return
pub open spec fn vsp_is_ascii_whitespace(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\x0C' || c == '\r' }
pub open spec fn iso_form(s: Seq<char>) -> bool {
    &&& s.len() == 16
    &&& s[8] == 'T'
    &&& s[15] == 'Z'
    &&& all_digits(s.subrange(0, 4)) && all_digits(s.subrange(4, 6)) && all_digits(s.subrange(6, 8))
    &&& all_digits(s.subrange(9, 11)) && all_digits(s.subrange(11, 13)) && all_digits(s.subrange(13, 15))
}
impl AmzDate {
    pub open spec fn inv(&self) -> bool { self.year < 10000 && self.month < 100 && self.day < 100 && self.hour < 100 && self.minute < 100 && self.second < 100 }
    pub open spec fn iso_date(&self) -> Seq<char> { digits(self.year as nat, 4) + digits(self.month as nat, 2) + digits(self.day as nat, 2) }
    pub open spec fn iso(&self) -> Seq<char> {
        self.iso_date() + seq!['T'] + digits(self.hour as nat, 2) + digits(self.minute as nat, 2) + digits(self.second as nat, 2) + seq!['Z']
    }
}
pub trait VSliceCopied<T: Copy>: View<V = Seq<T>> {
    fn vall_copied<F: Fn(T) -> bool>(&self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), true),
            !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), false);
}
impl<T: Copy, const N: usize> VSliceCopied<T> for [T; N] {
    fn vall_copied<F: Fn(T) -> bool>(&self, f: F) -> (r: bool) {
        let mut i = 0;
        while i < N
            invariant
                0 <= i <= N, N == self@.len(),
                forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
                forall|j: int| 0 <= j < i ==> f.ensures((#[trigger] self@[j],), true),
            decreases N - i,
        {
            if !f(self[i]) { return false; }
            i += 1;
        }
        true
    }
}
pub fn vdisplay_pad0<T: VNat>(out: &mut String, n: &T, w: usize)
    requires n.nat() < pow10(w as nat),
    ensures final(out)@ == old(out)@ + digits(n.nat(), w as nat),
{ vdisplay_pad0_(out, n, w) }
#[verifier::external_body]
fn vdisplay_pad0_<T: VNat>(out: &mut String, n: &T, w: usize)
    requires n.nat() < pow10(w as nat),
    ensures final(out)@ == old(out)@ + digits(n.nat(), w as nat),
{ unimplemented!() }
pub trait VNat { spec fn nat(&self) -> nat; }
impl VNat for u32 { open spec fn nat(&self) -> nat { *self as nat } }
//@ fn src/headers/amz_date.rs AmzDate::from_header_str/parse
//@ sig pub fn amz_date_parse<'a>(input: &'a str) -> (r: IRes<'a, [&'a str; 6]>)
//@ spec
    ensures
        r is Ok <==> iso_form(input@),
        r is Ok ==> {
            let a = r->Ok_0.1@;
            a[0]@ == input@.subrange(0, 4) && a[1]@ == input@.subrange(4, 6) && a[2]@ == input@.subrange(6, 8)
            && a[3]@ == input@.subrange(9, 11) && a[4]@ == input@.subrange(11, 13) && a[5]@ == input@.subrange(13, 15)
        },
//@ closure 0
|s: &str| -> (o: bool) ensures o == digit_bytes(s@)
//@ hint start
    broadcast use {nomlem::lemma_from_from, nomlem::lemma_upto_from};
//@ text
impl AmzDate {
//@ fn src/headers/amz_date.rs AmzDate::from_header_str/to_u32
//@ sig pub fn to_u32(input: &str) -> (r: Result<u32, ParseAmzDateError>)
//@ spec
    ensures
        match r { Ok(n) => read_u32(input@) == Some(n), Err(_) => read_u32(input@) is None },
        all_digits(input@) && 0 < input@.len() <= 4 ==> r is Ok && r->Ok_0 == dec(input@) && digits(dec(input@), input@.len()) == input@ && dec(input@) < pow10(input@.len()),
//@ hint start
    proof {
        reveal_with_fuel(pow10, 6);
        if all_digits(input@) { lemma_digits(input@); }
    }
//@ fn src/headers/amz_date.rs AmzDate::from_header_str
//@ alias parse amz_date_parse
//@ alias to_u32 Self::to_u32
//@ sig pub fn from_header_str(header: &str) -> (r: Result<Self, ParseAmzDateError>)
//@ spec
    ensures
        r is Ok <==> iso_form(header@),
        r is Ok ==> r->Ok_0.inv() && r->Ok_0.iso() == header@,
//@ hint start
    proof {
        reveal_with_fuel(pow10, 6);
        let s = header@;
        if iso_form(s) {
            assert(s =~= s.subrange(0, 4) + s.subrange(4, 6) + s.subrange(6, 8) + seq!['T'] + s.subrange(9, 11) + s.subrange(11, 13) + s.subrange(13, 15) + seq!['Z']);
        }
    }
//@ fn src/headers/amz_date.rs AmzDate::to_iso8601
//@ sig pub fn to_iso8601(&self) -> (r: String)
//@ spec
    requires self.inv(),
    ensures r@ == self.iso(),
//@ hint start
    proof { reveal_with_fuel(pow10, 6); }
//@ fn src/headers/amz_date.rs AmzDate::to_date
//@ sig pub fn to_date(&self) -> (r: String)
//@ spec
    requires self.inv(),
    ensures r@ == self.iso_date(),
//@ hint start
    proof { reveal_with_fuel(pow10, 6); }
//@ text
}
// ---------------------------------------------------------------- x-amz-content-sha256
pub open spec fn lower_hex_byte(b: u8) -> bool { 48 <= b <= 57 || 97 <= b <= 102 }
pub open spec fn sha256_form(s: Seq<char>) -> bool {
    s.len() == 64 && forall|i: int| 0 <= i < s.len() ==> ('0' <= #[trigger] s[i] <= '9' || 'a' <= s[i] <= 'f')
}
//@ fn src/utils/crypto.rs is_sha256_checksum
//@ method len vlen
//@ sig pub fn is_sha256_checksum(s: &str) -> (r: bool)
//@ spec
    ensures r <==> sha256_form(s@),
//@ closure 0
|b: &u8| -> (o: bool) ensures o == lower_hex_byte(*b)
//@ hint start
    proof {
        let b = encode_utf8(s@);
        lemma_utf8_ascii(s@);
        if sha256_form(s@) { assert(ascii_chars(s@)); assert forall|i: int| 0 <= i < b.len() implies lower_hex_byte(#[trigger] b[i]) by { assert(b[i] == s@[i] as u8); } }
        if forall|i: int| 0 <= i < b.len() ==> lower_hex_byte(#[trigger] b[i]) { assert(ascii_bytes(b)); assert(ascii_chars(s@)); assert forall|i: int| 0 <= i < s@.len() implies ('0' <= #[trigger] s@[i] <= '9' || 'a' <= s@[i] <= 'f') by { assert(b[i] == s@[i] as u8); assert(lower_hex_byte(b[i])); } }
    }
//@ text
impl<'a> AmzContentSha256<'a> {
//@ fn src/headers/amz_content_sha256.rs AmzContentSha256::from_header_str
//@ strip crypto
//@ sig pub fn from_header_str(header: &'a str) -> (r: Result<Self, ParseAmzContentSha256Error>)
//@ spec
    ensures
        header@ == "UNSIGNED-PAYLOAD"@ ==> r is Ok && r->Ok_0 is UnsignedPayload,
        header@ == "STREAMING-AWS4-HMAC-SHA256-PAYLOAD"@ ==> r is Ok && r->Ok_0 is MultipleChunks,
        header@ != "UNSIGNED-PAYLOAD"@ && header@ != "STREAMING-AWS4-HMAC-SHA256-PAYLOAD"@ ==> (match r {
            Ok(a) => sha256_form(header@) && a is SingleChunk && a->SingleChunk_payload_checksum@ == header@,
            Err(_) => !sha256_form(header@),
        }),
//@ hint start
    proof { assert("UNSIGNED-PAYLOAD"@.len() != "STREAMING-AWS4-HMAC-SHA256-PAYLOAD"@.len()); }
//@ text
}
// ---------------------------------------------------------------- Range
pub open spec fn uint64(s: Seq<char>) -> Option<u64> { if s.len() > 0 && all_digits(s) && dec(s) <= u64::MAX { Some(dec(s) as u64) } else { None } }
/// bytes=FIRST-[LAST] with FIRST <= LAST, or bytes=-N
pub open spec fn range_of(s: Seq<char>) -> Option<Range> {
    if !is_prefix("bytes="@, s) { None } else {
        let t = from(s, 6);
        let k = first_pos(t, '-');
        if k == t.len() { None } else {
            let a = upto(t, k);
            let b = from(t, k + 1);
            if a.len() == 0 {
                match uint64(b) { Some(n) => Some(Range::Suffix { last: n }), None => None }
            } else {
                match uint64(a) {
                    None => None,
                    Some(f) => if b.len() == 0 { Some(Range::Normal { first: f, last: None }) } else {
                        match uint64(b) { Some(l) => if f <= l { Some(Range::Normal { first: f, last: Some(l) }) } else { None }, None => None }
                    },
                }
            }
        }
    }
}
//@ fn src/headers/range.rs Range::from_header_str/parse
//@ sig pub fn range_parse<'a>(input: &'a str) -> (r: IRes<'a, Range>)
//@ spec
    ensures
        r is Ok ==> range_of(input@) == Some(r->Ok_0.1),
        r is Err ==> range_of(input@) is None,
//@ hint start
    proof {
        assert("bytes="@.len() == 6);
        if is_prefix("bytes="@, input@) {
            let t = from(input@, 6);
            let k = first_pos(t, '-');
            lemma_first_pos(t, '-');
            let j = till(t, not_digit());
            assert(all_digits(upto(t, j)));
            if k < t.len() {
                let b = from(t, k + 1);
                let m = till(b, not_digit());
                if all_digits(upto(t, k)) {
                    if j < k { assert(upto(t, k)[j] == t[j]); }
                    assert(j == k);
                }
                assert(all_digits(upto(b, m)));
                if all_digits(b) { assert(m == b.len()); }
                assert(upto(b, b.len() as int) =~= b);
                assert(from(b, b.len() as int) =~= Seq::<char>::empty());
            }
            if j < t.len() && t[j] == '-' { assert(k == j); }
        }
    }
//@ text
impl Range {
//@ fn src/headers/range.rs Range::from_header_str
//@ alias parse range_parse
//@ sig pub fn from_header_str(header: &str) -> (r: Result<Self, ParseRangeError>)
//@ spec
    ensures
        r is Ok ==> range_of(header@) == Some(r->Ok_0),
        r is Err ==> range_of(header@) is None,
//@ text
}
// ---------------------------------------------------------------- Credential, Authorization
pub open spec fn ch(c: char) -> spec_fn(char) -> bool { |x: char| x == c }
pub open spec fn ascii_ws() -> spec_fn(char) -> bool { |x: char| vsp_is_ascii_whitespace(x) }
pub open spec fn header_end() -> spec_fn(char) -> bool { |x: char| x == ';' || x == ',' }
/// days of a month of the proleptic Gregorian calendar
pub open spec fn month_days(y: int, m: int) -> int {
    if m == 2 { if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 }
}
pub open spec fn calendar_date(y: int, m: int, d: int) -> bool { 1 <= m <= 12 && 1 <= d <= month_days(y, m) }
/// YYYYMMDD naming an existing day
pub open spec fn date_form(s: Seq<char>) -> bool {
    s.len() == 8 && all_digits(s) && calendar_date(dec(s.subrange(0, 4)) as int, dec(s.subrange(4, 6)) as int, dec(s.subrange(6, 8)) as int)
}
pub struct Utc;
pub enum LocalResult<T> { None, Single(T), Ambiguous(T, T) }
#[verifier::external_body]
pub struct DateTimeUtc { _p: () }
impl Utc {
    /// trusted: chrono, for years 0..=9999 and midnight
    #[verifier::external_body]
    pub fn with_ymd_and_hms(&self, y: i32, m: u32, d: u32, hh: u32, mm: u32, ss: u32) -> (r: LocalResult<DateTimeUtc>)
        ensures 0 <= y <= 9999 && hh == 0 && mm == 0 && ss == 0 ==> (r is Single <==> calendar_date(y as int, m as int, d as int)),
    { unimplemented!() }
}
pub trait VBytesAll: View<V = Seq<char>> {
    fn vbytes_all<F: Fn(u8) -> bool>(&self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < encode_utf8(self@).len() ==> f.requires((#[trigger] encode_utf8(self@)[i],)),
        ensures
            r ==> forall|i: int| 0 <= i < encode_utf8(self@).len() ==> f.ensures((#[trigger] encode_utf8(self@)[i],), true),
            !r ==> exists|i: int| 0 <= i < encode_utf8(self@).len() && f.ensures((#[trigger] encode_utf8(self@)[i],), false);
}
impl VBytesAll for str {
    #[verifier::external_body]
    fn vbytes_all<F: Fn(u8) -> bool>(&self, f: F) -> (r: bool) { self.bytes().all(f) }
}
pub struct CredV { pub akid: Seq<char>, pub date: Seq<char>, pub region: Seq<char>, pub service: Seq<char> }
impl<'a> View for CredentialV4<'a> {
    type V = CredV;
    open spec fn view(&self) -> CredV { CredV { akid: self.access_key_id@, date: self.date@, region: self.aws_region@, service: self.aws_service@ } }
}
/// AKID/DATE/REGION/SERVICE/aws4_request followed by anything
pub open spec fn cred_of(s0: Seq<char>) -> Option<(CredV, Seq<char>)> {
    let a = till(s0, ch('/'));
    let s1 = from(s0, a + 1);
    let b = till(s1, ch('/'));
    let s2 = from(s1, b + 1);
    let c = till(s2, ch('/'));
    let s3 = from(s2, c + 1);
    let d = till(s3, ch('/'));
    let s4 = from(s3, d + 1);
    if a == 0 || a == s0.len() || b == 0 || b == s1.len() || !date_form(upto(s1, b)) || c == s2.len() || d == 0 || d == s3.len() || !is_prefix("aws4_request"@, s4) {
        None
    } else {
        Some((CredV { akid: upto(s0, a), date: upto(s1, b), region: upto(s2, c), service: upto(s3, d) }, from(s4, 12)))
    }
}
impl<'a> CredentialV4<'a> {
//@ fn src/headers/authorization_v4.rs CredentialV4::verify_date
//@ sig pub fn verify_date(input: &'a str) -> (r: IRes<'a, (&'a str, &'a str, &'a str)>)
//@ spec
    ensures r is Ok <==> date_form(input@),
//@ hint start
    broadcast use {nomlem::lemma_from_from, nomlem::lemma_upto_from};
    proof {
        let s = input@;
        reveal_with_fuel(pow10, 6);
        assert(digit_bytes(s) == all_digits(s));
        if s.len() == 8 && all_digits(s) {
            assert(all_digits(s.subrange(0, 4)) && all_digits(s.subrange(4, 6)) && all_digits(s.subrange(6, 8)));
            lemma_digits(s.subrange(0, 4)); lemma_digits(s.subrange(4, 6)); lemma_digits(s.subrange(6, 8));
        }
    }
//@ closure 0
|b: u8| -> (o: bool) ensures o == (48 <= b <= 57)
//@ fn src/headers/authorization_v4.rs CredentialV4::parse_by_nom
//@ sig pub fn parse_by_nom(input: &'a str) -> (r: IRes<'a, Self>)
//@ spec
    ensures
        r is Ok ==> cred_of(input@) == Some((r->Ok_0.1@, r->Ok_0.0@)),
        r is Err ==> cred_of(input@) is None,
//@ text
}
pub struct AuthV { pub algorithm: Seq<char>, pub cred: CredV, pub headers: Seq<Seq<char>>, pub signature: Seq<char> }
pub mod strs_m {
use vstd::prelude::*;
pub open spec fn strs(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
pub broadcast proof fn lemma_strs_push(s: Seq<&str>, x: &str)
    ensures #[trigger] strs(s.push(x)) == strs(s).push(x@),
{ assert(strs(s.push(x)) =~= strs(s).push(x@)); }
pub broadcast proof fn lemma_push_add(a: Seq<Seq<char>>, x: Seq<char>, v: Seq<Seq<char>>)
    ensures #[trigger] (a + (seq![x] + v)) == a.push(x) + v,
{ assert(a + (seq![x] + v) =~= a.push(x) + v); }
pub broadcast proof fn lemma_add_one(a: Seq<Seq<char>>, x: Seq<char>)
    ensures #[trigger] (a + seq![x]) == a.push(x),
{ assert(a + seq![x] =~= a.push(x)); }
}
pub use strs_m::*;
impl<'a> View for AuthorizationV4<'a> {
    type V = AuthV;
    open spec fn view(&self) -> AuthV { AuthV { algorithm: self.algorithm@, cred: self.credential@, headers: strs(self.signed_headers@), signature: self.signature@ } }
}
pub trait VIntoVec<T>: Sized { fn vinto_vec(self) -> Vec<T>; }
impl<T> VIntoVec<T> for Vec<T> { fn vinto_vec(self) -> (r: Vec<T>) ensures r == self { self } }
/// H1;H2;..;Hn, (no name is empty) and what follows the comma
pub open spec fn header_list(s: Seq<char>) -> Option<(Seq<Seq<char>>, Seq<char>)>
    decreases s.len(),
{
    let k = till(s, header_end());
    if k <= 0 || k >= s.len() { None }
    else if s[k] == ',' { Some((seq![upto(s, k)], from(s, k + 1))) }
    else { match header_list(from(s, k + 1)) { Some((v, rest)) => Some((seq![upto(s, k)] + v, rest)), None => None } }
}
pub open spec fn skip_ws(s: Seq<char>) -> Seq<char> { from(s, till(s, not_multispace())) }
/// ALGORITHM <ws> Credential=CRED,<ws>SignedHeaders=H1;..;Hn,<ws>Signature=SIG<ws>
pub open spec fn auth_of(s: Seq<char>) -> Option<AuthV> {
    let a = till(s, ascii_ws());
    let s1 = from(s, a);
    if a == 0 || till(s1, not_multispace()) == 0 { None } else { auth_of_cred(upto(s, a), skip_ws(s1)) }
}
pub open spec fn auth_of_cred(alg: Seq<char>, s: Seq<char>) -> Option<AuthV> {
    if !is_prefix("Credential="@, s) { None } else {
        match cred_of(from(s, 11)) {
            None => None,
            Some((c, t)) => if !is_prefix(","@, t) { None } else { auth_of_headers(alg, c, skip_ws(from(t, 1))) },
        }
    }
}
pub open spec fn auth_of_headers(alg: Seq<char>, cred: CredV, s: Seq<char>) -> Option<AuthV> {
    if !is_prefix("SignedHeaders="@, s) { None } else {
        match header_list(from(s, 14)) {
            None => None,
            Some((h, t)) => auth_of_signature(alg, cred, h, skip_ws(t)),
        }
    }
}
pub open spec fn auth_of_signature(alg: Seq<char>, cred: CredV, headers: Seq<Seq<char>>, s: Seq<char>) -> Option<AuthV> {
    if !is_prefix("Signature="@, s) { None } else {
        let t = from(s, 10);
        let k = till(t, ascii_ws());
        if skip_ws(from(t, k)).len() == 0 { Some(AuthV { algorithm: alg, cred, headers, signature: upto(t, k) }) } else { None }
    }
}
//@ fn src/headers/authorization_v4.rs AuthorizationV4::from_header_str/parse
//@ sig pub fn auth_parse<'a>(input: &'a str) -> (r: IRes<'a, AuthorizationV4<'a>>)
//@ spec
    ensures
        r is Ok ==> auth_of(input@) == Some(r->Ok_0.1@),
        r is Err ==> auth_of(input@) is None,
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ hint start
    broadcast use {strs_m::lemma_strs_push, strs_m::lemma_push_add, strs_m::lemma_add_one};
//@ hint before_loop0
    let ghost s0 = input@;
//@ hint loop0_start
    proof { let k = till(input@, header_end()); if 0 < k < input@.len() { assert(upto(from(input@, k), 1) =~= seq![input@[k]]); assert(seq![input@[k]].len() == 1 && ","@ =~= seq![',']); } }
//@ loop 0
    invariant
        header_list(s0) == (match header_list(input@) { Some((v, rest)) => Some((strs(headers@) + v, rest)), None => None }),
    ensures
        header_list(s0) == Some((strs(headers@), input@)),
    decreases input@.len(),
//@ hint after_let_headers
    proof { assert(strs(headers@) =~= Seq::<Seq<char>>::empty()); }
//@ text
impl<'a> AuthorizationV4<'a> {
//@ fn src/headers/authorization_v4.rs AuthorizationV4::from_header_str
//@ alias parse auth_parse
//@ sig pub fn from_header_str(auth: &'a str) -> (r: Result<Self, ParseAuthorizationError>)
//@ spec
    ensures
        r is Ok ==> auth_of(auth@) == Some(r->Ok_0@),
        r is Err ==> auth_of(auth@) is None,
//@ text
}
