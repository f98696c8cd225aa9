//@ include base.rs
//@ import u09_ordered.vc
//@ import u10_headers.vc
//@ include bytes.rs
//@ include vref.rs
//@ include sort.rs
//@ chain
//@ method as_ref vref
//@ method iter viter
//@ method sort vsort
//@ method split_first vsplit_first
//@ method trim vtrim
//@ rewrite std :: str :: from_utf8 ==> vfrom_utf8
//@ rewrite crypto :: ==>
//@ rewrite hex_simd :: ==>
//@ known wrapping_shr
//@ method sort_unstable vsort
//@ item src/signature_v4.rs Payload
//@ item src/signature_v4.rs PresignedQs
//@ item src/signature_v4.rs PresignedUrl
//@ item src/signature_v4.rs ParsePresignedUrlError
//@ item src/signature_v4.rs uri_encode/HEX_UPPERCASE_TABLE
//@ item src/signature_v4.rs EMPTY_STRING_SHA256_HASH
//@ text
// ---------------------------------------------------------------- trusted: std, hashing, hex
#[verifier::external_body]
pub struct Utf8Error { _p: () }
#[verifier::external_body]
pub fn vfrom_utf8(b: &[u8]) -> (r: Result<&str, Utf8Error>)
    ensures
        r is Ok ==> encode_utf8(r->Ok_0@) == b@,
        ascii_bytes(b@) ==> r is Ok,
{ unimplemented!() }
/// Unicode White_Space
pub open spec fn white(c: char) -> bool {
    ||| '\t' <= c <= '\r' || c == ' ' || c == '\u{85}' || c == '\u{A0}' || c == '\u{1680}'
    ||| '\u{2000}' <= c <= '\u{200A}' || c == '\u{2028}' || c == '\u{2029}' || c == '\u{202F}' || c == '\u{205F}' || c == '\u{3000}'
}
pub open spec fn trim_end(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && white(s.last()) { trim_end(s.drop_last()) } else { s } }
pub open spec fn trim(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && white(s[0]) { trim(s.subrange(1, s.len() as int)) } else { trim_end(s) } }
pub trait VTrim: View<V = Seq<char>> { fn vtrim(&self) -> (r: &str) ensures r@ == trim(self@); }
impl VTrim for str {
    #[verifier::external_body]
    fn vtrim(&self) -> (r: &str) { self.trim() }
}
pub trait VSplitFirst<T>: View<V = Seq<T>> {
    fn vsplit_first(&self) -> (r: Option<(&T, &[T])>)
        ensures match r {
            None => self@.len() == 0,
            Some((a, b)) => self@.len() > 0 && *a == self@[0] && b@ == self@.subrange(1, self@.len() as int),
        };
}
impl<T> VSplitFirst<T> for Vec<T> {
    #[verifier::external_body]
    fn vsplit_first(&self) -> (r: Option<(&T, &[T])>) { self.split_first() }
}
/// SHA-256 and HMAC-SHA-256 (uninterpreted)
pub uninterp spec fn sha256(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn hmac(key: Seq<u8>, data: Seq<u8>) -> Seq<u8>;
pub open spec fn hexl(n: int) -> char { if n < 10 { (48 + n) as char } else { (87 + n) as char } }
/// lower case hexadecimal
pub open spec fn hexs(b: Seq<u8>) -> Seq<char>
    decreases b.len(),
{ if b.len() == 0 { Seq::empty() } else { hexs(b.drop_last()).push(hexl(b.last() as int / 16)).push(hexl(b.last() as int % 16)) } }
/// the SHA-256 of nothing
pub axiom fn axiom_sha256_empty()
    ensures hexs(sha256(Seq::<u8>::empty())) == "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"@;
impl VRef<[u8]> for Bytes {
    open spec fn vr(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vref(&self) -> (r: &[u8]) { unimplemented!() }
}
#[verifier::external_body]
pub struct Digest { _p: () }
impl View for Digest { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl VRef<[u8]> for Digest {
    open spec fn vr(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vref(&self) -> (r: &[u8]) { unimplemented!() }
}
#[verifier::external_body]
pub struct Sha256 { _p: () }
impl Sha256 {
    /// what was fed so far
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn digest(b: &[u8]) -> (r: Digest) ensures r@ == sha256(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Sha256) ensures r.fed() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update<T: VRef<[u8]>>(&mut self, d: T) ensures final(self).fed() == old(self).fed() + d.vr() { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: Digest) ensures r@ == sha256(self.fed()) { unimplemented!() }
}
#[verifier::external_body]
pub struct Hmac { _p: () }
#[verifier::external_body]
pub struct InvalidLength { _p: () }
#[verifier::external_body]
pub struct CtOutput { _p: () }
impl View for CtOutput { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl CtOutput {
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: Digest) ensures r@ == self@ { unimplemented!() }
}
impl Hmac {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new_from_slice(k: &[u8]) -> (r: Result<Hmac, InvalidLength>)
        ensures r is Ok, r->Ok_0.key() == k@, r->Ok_0.fed() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, d: &[u8]) ensures final(self).key() == old(self).key(), final(self).fed() == old(self).fed() + d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: CtOutput) ensures r@ == hmac(self.key(), self.fed()) { unimplemented!() }
}
pub enum AsciiCase { Lower, Upper }
#[verifier::external_body]
pub fn encode_to_string(b: &[u8], c: AsciiCase) -> (r: String) ensures c is Lower ==> r@ == hexs(b@) { unimplemented!() }
//@ fn src/utils/crypto.rs to_hex_string
//@ sig pub fn to_hex_string<T: VRef<[u8]>>(src: T) -> (r: String)
//@ spec
    ensures r@ == hexs(src.vr()),
//@ fn src/utils/crypto.rs hex_sha256
//@ sig pub fn hex_sha256(data: &[u8]) -> (r: String)
//@ spec
    ensures r@ == hexs(sha256(data@)),
//@ text
pub open spec fn concat(c: Seq<Bytes>) -> Seq<u8>
    decreases c.len(),
{ if c.len() == 0 { Seq::empty() } else { concat(c.drop_last()) + c.last()@ } }
//@ fn src/utils/crypto.rs hex_sha256_chunk
//@ sig pub fn hex_sha256_chunk(chunk_data: &[Bytes]) -> (r: String)
//@ spec
    ensures r@ == hexs(sha256(concat(chunk_data@))),
//@ loop 0
    invariant
        it0.v() == chunk_data@,
        0 <= it0.i() <= it0.v().len(),
        acc0.fed() == concat(chunk_data@.subrange(0, it0.i())),
    ensures it0.i() == it0.v().len(),
    decreases it0.v().len() - it0.i(),
//@ hint loop0_body
    proof {
        let k = it0.i() - 1;
        assert(chunk_data@.subrange(0, k + 1).drop_last() =~= chunk_data@.subrange(0, k));
    }
//@ hint after_loop0
    proof { assert(chunk_data@.subrange(0, chunk_data@.len() as int) =~= chunk_data@); }
//@ fn src/utils/crypto.rs hmac_sha256
//@ sig pub fn hmac_sha256(key: &[u8], data: &[u8]) -> (r: Digest)
//@ spec
    ensures r@ == hmac(key@, data@),
//@ comb unwrap_or_else result
//@ hint start
    proof { assert(Seq::<u8>::empty() + data@ =~= data@); }
//@ fn src/utils/crypto.rs hex_hmac_sha256
//@ sig pub fn hex_hmac_sha256(key: &[u8], data: &[u8]) -> (r: String)
//@ spec
    ensures r@ == hexs(hmac(key@, data@)),
//@ text
// ---------------------------------------------------------------- the specification of Signature Version 4
pub open spec fn unreserved(b: u8) -> bool { 65 <= b <= 90 || 97 <= b <= 122 || 48 <= b <= 57 || b == 95 || b == 45 || b == 126 || b == 46 }
pub open spec fn hexu(n: int) -> char { if n < 10 { (48 + n) as char } else { (55 + n) as char } }
pub open spec fn enc_byte(b: u8, slash: bool) -> Seq<char> {
    if unreserved(b) || (b == 47 && !slash) { seq![b as char] } else { seq!['%', hexu(b as int / 16), hexu(b as int % 16)] }
}
pub open spec fn enc_bytes(s: Seq<u8>, slash: bool) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { enc_bytes(s.drop_last(), slash) + enc_byte(s.last(), slash) } }
/// UriEncode: everything but the unreserved characters (and '/', unless it is to be encoded) as %XX over the UTF-8 bytes
pub open spec fn uri_enc(s: Seq<char>, slash: bool) -> Seq<char> { enc_bytes(encode_utf8(s), slash) }
pub open spec fn chars_of(b: Seq<u8>) -> Seq<char> { b.map_values(|x: u8| x as char) }
pub open spec fn enc_pairs(q: Seq<SPair>) -> Seq<SPair> { q.map_values(|p: SPair| (uri_enc(p.0, true), uri_enc(p.1, true))) }
#[verifier::opaque]
pub open spec fn join_pairs(q: Seq<SPair>) -> Seq<char>
    decreases q.len(),
{
    if q.len() == 0 { Seq::empty() } else {
        let r = join_pairs(q.drop_last());
        (if q.len() > 1 { r.push('&') } else { r }) + q.last().0 + seq!['='] + q.last().1
    }
}
/// encode, then sort by the encoded name, then value
pub open spec fn canonical_query(q: Seq<SPair>) -> Seq<char> { join_pairs(sort_pairs(enc_pairs(q))) }
pub open spec fn skipped(n: Seq<char>) -> bool { n == "authorization"@ || n == "user-agent"@ }
#[verifier::opaque]
pub open spec fn header_lines(h: Seq<SPair>) -> Seq<char>
    decreases h.len(),
{
    if h.len() == 0 { Seq::empty() } else {
        let r = header_lines(h.drop_last());
        if skipped(h.last().0) { r } else { r + h.last().0 + seq![':'] + trim(h.last().1) + seq!['\n'] }
    }
}
#[verifier::opaque]
pub open spec fn signed_count(h: Seq<SPair>) -> nat
    decreases h.len(),
{ if h.len() == 0 { 0 } else { signed_count(h.drop_last()) + if skipped(h.last().0) { 0nat } else { 1nat } } }
#[verifier::opaque]
pub open spec fn signed_names(h: Seq<SPair>) -> Seq<char>
    decreases h.len(),
{
    if h.len() == 0 { Seq::empty() } else {
        let r = signed_names(h.drop_last());
        if skipped(h.last().0) { r } else if signed_count(h.drop_last()) == 0 { h.last().0 } else { r + seq![';'] + h.last().0 }
    }
}
pub open spec fn payload_text(p: Payload<'_>) -> Seq<char> {
    match p {
        Payload::Unsigned => "UNSIGNED-PAYLOAD"@,
        Payload::Empty => hexs(sha256(Seq::empty())),
        Payload::SingleChunk(d) => hexs(sha256(d@)),
        Payload::MultipleChunks => "STREAMING-AWS4-HMAC-SHA256-PAYLOAD"@,
    }
}
pub open spec fn canonical(method: Seq<char>, path: Seq<char>, q: Seq<SPair>, h: Seq<SPair>, payload: Seq<char>) -> Seq<char> {
    method + seq!['\n'] + uri_enc(path, false) + seq!['\n'] + canonical_query(q) + seq!['\n']
        + header_lines(h) + seq!['\n'] + signed_names(h) + seq!['\n'] + payload
}
pub open spec fn scope(date: Seq<char>, region: Seq<char>) -> Seq<char> { date + seq!['/'] + region + "/s3/aws4_request\n"@ }
pub open spec fn string_to_sign(canon: Seq<char>, t: AmzDate, region: Seq<char>) -> Seq<char> {
    "AWS4-HMAC-SHA256\n"@ + t.iso() + seq!['\n'] + scope(t.iso_date(), region) + hexs(sha256(encode_utf8(canon)))
}
pub open spec fn chunk_string_to_sign(t: AmzDate, region: Seq<char>, prev: Seq<char>, data: Seq<u8>) -> Seq<char> {
    "AWS4-HMAC-SHA256-PAYLOAD\n"@ + t.iso() + seq!['\n'] + scope(t.iso_date(), region) + prev + seq!['\n']
        + hexs(sha256(Seq::empty())) + seq!['\n'] + hexs(sha256(data))
}
pub open spec fn signing_key(secret: Seq<char>, t: AmzDate, region: Seq<char>) -> Seq<u8> {
    hmac(hmac(hmac(hmac(encode_utf8("AWS4"@) + encode_utf8(secret), encode_utf8(t.iso_date())), encode_utf8(region)), encode_utf8("s3"@)), encode_utf8("aws4_request"@))
}
pub open spec fn signature(sts: Seq<char>, secret: Seq<char>, t: AmzDate, region: Seq<char>) -> Seq<char> {
    hexs(hmac(signing_key(secret, t, region), encode_utf8(sts)))
}
#[verifier::external_body]
pub struct Method { _p: () }
impl View for Method { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Method {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn vpairs<A: VRef<str>, B: VRef<str>>(s: Seq<(A, B)>) -> Seq<SPair> { s.map_values(|p: (A, B)| (p.0.vr(), p.1.vr())) }
impl<'a> OrderedHeaders<'a> {
    pub fn vref(&self) -> (r: &[(&'a str, &'a str)]) ensures r@ == self.headers@ { self.headers.as_slice() }
}
//@ fn src/signature_v4.rs uri_encode
//@ sig pub fn uri_encode(output: &mut String, input: &str, encode_slash: bool)
//@ spec
    ensures final(output)@ == old(output)@ + uri_enc(input@, encode_slash),
//@ method len vlen
//@ comb unwrap_or_else result
//@ loop 0
    invariant
        it0.v() == encode_utf8(input@),
        0 <= it0.i() <= it0.v().len(),
        ascii_bytes(buf@),
        chars_of(buf@) == enc_bytes(encode_utf8(input@).subrange(0, it0.i()), encode_slash),
    ensures it0.i() == it0.v().len(),
    decreases it0.v().len() - it0.i(),
//@ hint loop0_body
    proof {
        let e = encode_utf8(input@);
        let k = it0.i() - 1;
        assert(e.subrange(0, k + 1).drop_last() =~= e.subrange(0, k));
        assert(byte == e[k]);
        assert(byte >> 4 == byte / 16 && byte & 15 == byte % 16) by (bit_vector);
    }
    let ghost buf0 = buf@;
//@ hint loop0_end
    proof { assert(chars_of(buf@) =~= chars_of(buf0) + enc_byte(byte, encode_slash)); }
//@ hint after_loop0
    proof {
        let e = encode_utf8(input@);
        assert(e.subrange(0, e.len() as int) =~= e);
    }
//@ hint after_let_s
    proof {
        lemma_utf8_ascii(s@);
        assert(s@ =~= chars_of(buf@));
    }
//@ fn src/signature_v4.rs is_skipped_header
//@ sig pub fn is_skipped_header(header: &str) -> (r: bool)
//@ spec
    ensures r == skipped(header@),
//@ fn src/signature_v4.rs is_skipped_query_string
//@ sig pub fn is_skipped_query_string(name: &str) -> (r: bool)
//@ spec
    ensures r == (name@ == "X-Amz-Signature"@),
//@ text
pub proof fn lemma_sorted_query(q: Seq<SPair>, s: Seq<SPair>)
    requires pairs_sorted(s), s.to_multiset() == enc_pairs(q).to_multiset(),
    ensures s == sort_pairs(enc_pairs(q)),
{
    lemma_sort_pairs(enc_pairs(q));
    lemma_sorted_eq(s, sort_pairs(enc_pairs(q)));
}
pub proof fn lemma_sub(h: Seq<SPair>, k: int)
    requires 0 <= k < h.len(),
    ensures
        h.subrange(0, k + 1).drop_last() == h.subrange(0, k),
        h.subrange(0, k + 1).last() == h[k],
        h.subrange(0, k + 1).len() == k + 1,
{ assert(h.subrange(0, k + 1).drop_last() =~= h.subrange(0, k)); }
pub proof fn lemma_join_step(a: Seq<char>, q: Seq<SPair>, k: int)
    requires 0 <= k < q.len(),
    ensures
        k == 0 ==> a + join_pairs(q.subrange(0, 1)) == a + q[0].0 + seq!['='] + q[0].1,
        k > 0 ==> a + join_pairs(q.subrange(0, k + 1)) == (a + join_pairs(q.subrange(0, k))).push('&') + q[k].0 + seq!['='] + q[k].1,
{
    reveal(join_pairs);
    lemma_sub(q, k);
    if k == 0 {
        assert(join_pairs(q.subrange(0, 0)) =~= Seq::empty());
        assert(a + join_pairs(q.subrange(0, 1)) =~= a + q[0].0 + seq!['='] + q[0].1);
    } else {
        assert(a + join_pairs(q.subrange(0, k + 1)) =~= (a + join_pairs(q.subrange(0, k))).push('&') + q[k].0 + seq!['='] + q[k].1);
    }
}
pub proof fn lemma_empty_lists(a: Seq<char>)
    ensures
        a + join_pairs(Seq::empty()) == a,
        a + header_lines(Seq::empty()) == a,
        a + signed_names(Seq::empty()) == a,
        signed_count(Seq::empty()) == 0,
{
    reveal(join_pairs); reveal(header_lines); reveal(signed_names); reveal(signed_count);
    assert(a + Seq::<char>::empty() =~= a);
}
pub proof fn lemma_header_step(a: Seq<char>, h: Seq<SPair>, k: int)
    requires 0 <= k < h.len(),
    ensures
        a + header_lines(h.subrange(0, k + 1)) == if skipped(h[k].0) { a + header_lines(h.subrange(0, k)) } else { (a + header_lines(h.subrange(0, k)) + h[k].0).push(':') + trim(h[k].1) + seq!['\n'] },
{
    reveal(header_lines);
    lemma_sub(h, k);
    assert(a + header_lines(h.subrange(0, k + 1)) =~= if skipped(h[k].0) { a + header_lines(h.subrange(0, k)) } else { (a + header_lines(h.subrange(0, k)) + h[k].0).push(':') + trim(h[k].1) + seq!['\n'] });
}
pub proof fn lemma_signed_step(a: Seq<char>, h: Seq<SPair>, k: int)
    requires 0 <= k < h.len(),
    ensures
        a + signed_names(h.subrange(0, k + 1)) == if skipped(h[k].0) { a + signed_names(h.subrange(0, k)) } else if signed_count(h.subrange(0, k)) == 0 { a + h[k].0 } else { (a + signed_names(h.subrange(0, k))).push(';') + h[k].0 },
        signed_count(h.subrange(0, k + 1)) == signed_count(h.subrange(0, k)) + if skipped(h[k].0) { 0nat } else { 1nat },
        signed_count(h.subrange(0, k)) == 0 ==> signed_names(h.subrange(0, k)).len() == 0,
    decreases k,
{
    reveal(signed_names); reveal(signed_count);
    lemma_sub(h, k);
    if k > 0 { lemma_signed_step(a, h, k - 1); }
    assert(a + signed_names(h.subrange(0, k + 1)) =~= if skipped(h[k].0) { a + signed_names(h.subrange(0, k)) } else if signed_count(h.subrange(0, k)) == 0 { a + h[k].0 } else { (a + signed_names(h.subrange(0, k))).push(';') + h[k].0 });
}
//@ fn src/signature_v4.rs create_canonical_request
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ method len vlen
//@ sig pub fn create_canonical_request<A: VRef<str>, B: VRef<str>>(method: &Method, uri_path: &str, query_strings: &[(A, B)], headers: &OrderedHeaders<'_>, payload: Payload<'_>) -> (r: String)
//@ spec
    ensures r@ == canonical(method@, uri_path@, vpairs(query_strings@), headers.headers.pv(), payload_text(payload)),
//@ hint start
    let ghost q = vpairs(query_strings@);
    let ghost hp = headers.headers.pv();
    let ghost q0 = method@ + seq!['\n'] + uri_enc(uri_path@, false) + seq!['\n'];
    proof { assert(hp.subrange(0, 0) =~= Seq::empty()); axiom_sha256_empty(); }
//@ loop 0
    invariant
        it0.v() == query_strings@,
        0 <= it0.i() <= it0.v().len(),
        col0.pv() == enc_pairs(q).subrange(0, it0.i()),
    ensures it0.i() == it0.v().len(),
    decreases it0.v().len() - it0.i(),
//@ hint loop0_body
    proof {
        assert(q[it0.i() - 1] == (el0.0.vr(), el0.1.vr()));
    }
    let ghost c0 = col0.pv();
//@ hint loop0_end
    proof {
        assert(col0.pv() =~= enc_pairs(q).subrange(0, it0.i()));
    }
//@ hint after_loop0
    proof { assert(enc_pairs(q).subrange(0, q.len() as int) =~= enc_pairs(q)); }
//@ hint after_let_encoded_query_strings
    proof { assert(acc0@ =~= q0); }
    let ghost sq = encoded_query_strings.pv();
    proof { lemma_sorted_query(q, sq); if sq.len() == 0 { assert(sq =~= Seq::empty()); lemma_empty_lists(q0); } }
//@ loop 1
    invariant
        it1.v() == remain@,
        0 <= it1.i() <= it1.v().len(),
        acc0@ == q0 + join_pairs(sq.subrange(0, it1.i() + 1)),
    ensures it1.i() == it1.v().len(),
    decreases it1.v().len() - it1.i(),
//@ hint before_loop1
    proof { lemma_join_step(q0, sq, 0); assert(acc0@ =~= q0 + sq[0].0 + seq!['='] + sq[0].1); }
//@ hint loop1_body
    let ghost a1 = acc0@;
    proof { lemma_join_step(q0, sq, it1.i() as int); assert(remain@[it1.i() - 1] == encoded_query_strings@[it1.i() as int]); assert(sq[it1.i() as int] == (name@, value@)); }
//@ hint loop1_end
    proof { assert(acc0@ =~= a1.push('&') + name@ + seq!['='] + value@); }
//@ hint after_loop1
    proof { assert(sq.subrange(0, sq.len() as int) =~= sq); }
//@ loop 2
    invariant
        it2.v() == headers.headers@,
        0 <= it2.i() <= it2.v().len(),
        acc0@ == h0 + header_lines(hp.subrange(0, it2.i())),
    ensures it2.i() == it2.v().len(),
    decreases it2.v().len() - it2.i(),
//@ hint before_loop2
    proof {
        lemma_empty_lists(q0);
        lemma_empty_lists(acc0@);
        assert(acc0@ =~= q0 + canonical_query(q) + seq!['\n']);
    }
    let ghost h0 = acc0@;
//@ hint loop2_body
    let ghost a2 = acc0@;
    proof { lemma_header_step(h0, hp, it2.i() - 1); assert(hp[it2.i() - 1] == (name@, value@)); }
//@ hint loop2_end
    proof { assert(acc0@ =~= (a2 + name@).push(':') + trim(value@) + seq!['\n']); }
//@ hint after_loop2
    proof { assert(hp.subrange(0, hp.len() as int) =~= hp); }
//@ loop 3
    invariant
        it3.v() == headers.headers@,
        0 <= it3.i() <= it3.v().len(),
        first_flag == (signed_count(hp.subrange(0, it3.i())) == 0),
        acc0@ == s0 + signed_names(hp.subrange(0, it3.i())),
    ensures it3.i() == it3.v().len(),
    decreases it3.v().len() - it3.i(),
//@ hint before_loop3
    let ghost s0 = acc0@;
    proof { lemma_empty_lists(s0); }
//@ hint loop3_body
    let ghost a3 = acc0@;
    proof { lemma_signed_step(s0, hp, it3.i() - 1); assert(hp[it3.i() - 1].0 == name@); if signed_count(hp.subrange(0, it3.i() - 1)) == 0 { assert(a3 =~= s0); } }
//@ hint after_loop3
    proof { assert(hp.subrange(0, hp.len() as int) =~= hp); }
//@ text
/// the query without its signature
#[verifier::opaque]
pub open spec fn unsigned_pairs(q: Seq<SPair>) -> Seq<SPair>
    decreases q.len(),
{
    if q.len() == 0 { q } else if q.last().0 == "X-Amz-Signature"@ { unsigned_pairs(q.drop_last()) } else { unsigned_pairs(q.drop_last()).push(q.last()) }
}
pub proof fn lemma_unsigned_step(q: Seq<SPair>, k: int)
    requires 0 <= k < q.len(),
    ensures
        enc_pairs(unsigned_pairs(q.subrange(0, k + 1))) == if q[k].0 == "X-Amz-Signature"@ { enc_pairs(unsigned_pairs(q.subrange(0, k))) } else { enc_pairs(unsigned_pairs(q.subrange(0, k))).push((uri_enc(q[k].0, true), uri_enc(q[k].1, true))) },
{
    reveal(unsigned_pairs);
    lemma_sub(q, k);
    if q[k].0 != "X-Amz-Signature"@ {
        assert(enc_pairs(unsigned_pairs(q.subrange(0, k + 1))) =~= enc_pairs(unsigned_pairs(q.subrange(0, k))).push((uri_enc(q[k].0, true), uri_enc(q[k].1, true))));
    }
}
//@ fn src/signature_v4.rs create_presigned_canonical_request
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ method len vlen
//@ sig pub fn create_presigned_canonical_request<A: VRef<str>, B: VRef<str>>(method: &Method, uri_path: &str, query_strings: &[(A, B)], headers: &OrderedHeaders<'_>) -> (r: String)
//@ spec
    ensures r@ == canonical(method@, uri_path@, unsigned_pairs(vpairs(query_strings@)), headers.headers.pv(), "UNSIGNED-PAYLOAD"@),
//@ hint start
    let ghost q = vpairs(query_strings@);
    let ghost hp = headers.headers.pv();
    let ghost q0 = method@ + seq!['\n'] + uri_enc(uri_path@, false) + seq!['\n'];
    proof { assert(hp.subrange(0, 0) =~= Seq::empty()); axiom_sha256_empty(); }
//@ loop 0
    invariant
        it0.v() == query_strings@,
        0 <= it0.i() <= it0.v().len(),
        col0.pv() == enc_pairs(unsigned_pairs(q.subrange(0, it0.i()))),
    ensures it0.i() == it0.v().len(),
    decreases it0.v().len() - it0.i(),
//@ hint before_loop0
    proof { reveal(unsigned_pairs); assert(col0.pv() =~= enc_pairs(unsigned_pairs(q.subrange(0, 0)))); }
//@ hint loop0_body
    proof {
        assert(q[it0.i() - 1] == (el0.0.vr(), el0.1.vr()));
        lemma_unsigned_step(q, it0.i() - 1);
    }
    let ghost c0 = col0.pv();
//@ hint loop0_end
    proof {
        if el0.0.vr() != "X-Amz-Signature"@ { assert(col0.pv() =~= c0.push((uri_enc(el0.0.vr(), true), uri_enc(el0.1.vr(), true)))); } else { assert(col0.pv() =~= c0); }
    }
//@ hint after_loop0
    proof { assert(q.subrange(0, q.len() as int) =~= q); }
//@ hint after_let_encoded_query_strings
    proof { assert(acc0@ =~= q0); }
    let ghost sq = encoded_query_strings.pv();
    proof { lemma_sorted_query(unsigned_pairs(q), sq); if sq.len() == 0 { assert(sq =~= Seq::empty()); lemma_empty_lists(q0); } }
//@ loop 1
    invariant
        it1.v() == remain@,
        0 <= it1.i() <= it1.v().len(),
        acc0@ == q0 + join_pairs(sq.subrange(0, it1.i() + 1)),
    ensures it1.i() == it1.v().len(),
    decreases it1.v().len() - it1.i(),
//@ hint before_loop1
    proof { lemma_join_step(q0, sq, 0); assert(acc0@ =~= q0 + sq[0].0 + seq!['='] + sq[0].1); }
//@ hint loop1_body
    let ghost a1 = acc0@;
    proof { lemma_join_step(q0, sq, it1.i() as int); assert(remain@[it1.i() - 1] == encoded_query_strings@[it1.i() as int]); assert(sq[it1.i() as int] == (name@, value@)); }
//@ hint loop1_end
    proof { assert(acc0@ =~= a1.push('&') + name@ + seq!['='] + value@); }
//@ hint after_loop1
    proof { assert(sq.subrange(0, sq.len() as int) =~= sq); }
//@ loop 2
    invariant
        it2.v() == headers.headers@,
        0 <= it2.i() <= it2.v().len(),
        acc0@ == h0 + header_lines(hp.subrange(0, it2.i())),
    ensures it2.i() == it2.v().len(),
    decreases it2.v().len() - it2.i(),
//@ hint before_loop2
    proof {
        lemma_empty_lists(q0);
        lemma_empty_lists(acc0@);
        assert(acc0@ =~= q0 + canonical_query(unsigned_pairs(q)) + seq!['\n']);
    }
    let ghost h0 = acc0@;
//@ hint loop2_body
    let ghost a2 = acc0@;
    proof { lemma_header_step(h0, hp, it2.i() - 1); assert(hp[it2.i() - 1] == (name@, value@)); }
//@ hint loop2_end
    proof { assert(acc0@ =~= (a2 + name@).push(':') + trim(value@) + seq!['\n']); }
//@ hint after_loop2
    proof { assert(hp.subrange(0, hp.len() as int) =~= hp); }
//@ loop 3
    invariant
        it3.v() == headers.headers@,
        0 <= it3.i() <= it3.v().len(),
        first_flag == (signed_count(hp.subrange(0, it3.i())) == 0),
        acc0@ == s0 + signed_names(hp.subrange(0, it3.i())),
    ensures it3.i() == it3.v().len(),
    decreases it3.v().len() - it3.i(),
//@ hint before_loop3
    let ghost s0 = acc0@;
    proof { lemma_empty_lists(s0); }
//@ hint loop3_body
    let ghost a3 = acc0@;
    proof { lemma_signed_step(s0, hp, it3.i() - 1); assert(hp[it3.i() - 1].0 == name@); if signed_count(hp.subrange(0, it3.i() - 1)) == 0 { assert(a3 =~= s0); } }
//@ hint after_loop3
    proof { assert(hp.subrange(0, hp.len() as int) =~= hp); }
//@ fn src/signature_v4.rs create_string_to_sign
//@ sig pub fn create_string_to_sign(canonical_request: &str, amz_date: &AmzDate, region: &str) -> (r: String)
//@ spec
    requires amz_date.inv(),
    ensures r@ == string_to_sign(canonical_request@, *amz_date, region@),
//@ hint end
    proof { assert(ret_val@ =~= string_to_sign(canonical_request@, *amz_date, region@)); }
//@ fn src/signature_v4.rs create_chunk_string_to_sign
//@ sig pub fn create_chunk_string_to_sign(amz_date: &AmzDate, region: &str, prev_signature: &str, chunk_data: &[Bytes]) -> (r: String)
//@ spec
    requires amz_date.inv(),
    ensures r@ == chunk_string_to_sign(*amz_date, region@, prev_signature@, concat(chunk_data@)),
//@ hint start
    proof { axiom_sha256_empty(); if chunk_data@.len() == 0 { assert(concat(chunk_data@) =~= Seq::<u8>::empty()); } }
//@ hint end
    proof { assert(ret_val@ =~= chunk_string_to_sign(*amz_date, region@, prev_signature@, concat(chunk_data@))); }
//@ fn src/signature_v4.rs calculate_signature
//@ method len vlen
//@ sig pub fn calculate_signature(string_to_sign: &str, secret_key: &str, amz_date: &AmzDate, region: &str) -> (r: String)
//@ spec
    requires amz_date.inv(),
    ensures r@ == signature(string_to_sign@, secret_key@, *amz_date, region@),
//@ hint after_let_secret
    proof {
        reveal_strlit("AWS4"); lemma_utf8_ascii("AWS4"@);
        assert(secret@ =~= encode_utf8("AWS4"@) + encode_utf8(secret_key@));
    }
//@ text
// ---------------------------------------------------------------- presigned URLs
/// the pieces between the separators
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    let i = first_pos(s, c);
    if 0 <= i < s.len() { seq![s.subrange(0, i)] + pieces(s.subrange(i + 1, s.len() as int), c) } else { seq![s] }
}
pub trait VSplit: View<V = Seq<char>> { fn vsplit(&self, c: char) -> (r: Vec<&str>) ensures views_ref(r@) == pieces(self@, c); }
impl VSplit for str {
    #[verifier::external_body]
    fn vsplit(&self, c: char) -> (r: Vec<&str>) { self.split(c).collect() }
}
/// a presigned URL is well formed: all six parameters are there, and each has its form
pub open spec fn presigned_ok(q: Seq<SPair>, p: PresignedUrl<'_>) -> bool {
    &&& lookup_ok(q, "X-Amz-Algorithm"@, Some(p.algorithm@))
    &&& exists|c: Seq<char>| #[trigger] lookup_ok(q, "X-Amz-Credential"@, Some(c)) && cred_of(c) == Some((p.credential@, Seq::<char>::empty()))
    &&& lookup_ok(q, "X-Amz-Date"@, Some(p.amz_date.iso())) && iso_form(p.amz_date.iso())
    &&& exists|e: Seq<char>| #[trigger] lookup_ok(q, "X-Amz-Expires"@, Some(e)) && read_u32(e) == Some(p.expires)
    &&& exists|h: Seq<char>| #[trigger] lookup_ok(q, "X-Amz-SignedHeaders"@, Some(h)) && ascii_chars(h) && pieces(h, ';').to_multiset() == views_ref(p.signed_headers@).to_multiset()
    &&& lookup_ok(q, "X-Amz-Signature"@, Some(p.signature@)) && sha256_form(p.signature@)
}
pub open spec fn presigned_text(q: Seq<SPair>, a: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, h: Seq<char>, s: Seq<char>) -> bool {
    &&& lookup_ok(q, "X-Amz-Algorithm"@, Some(a)) && lookup_ok(q, "X-Amz-Credential"@, Some(c)) && lookup_ok(q, "X-Amz-Date"@, Some(d))
    &&& lookup_ok(q, "X-Amz-Expires"@, Some(e)) && lookup_ok(q, "X-Amz-SignedHeaders"@, Some(h)) && lookup_ok(q, "X-Amz-Signature"@, Some(s))
}
/// it is refused only when a parameter is missing or malformed
pub open spec fn presigned_bad(q: Seq<SPair>) -> bool {
    ||| lookup_ok(q, "X-Amz-Algorithm"@, None) || lookup_ok(q, "X-Amz-Credential"@, None) || lookup_ok(q, "X-Amz-Date"@, None)
    ||| lookup_ok(q, "X-Amz-Expires"@, None) || lookup_ok(q, "X-Amz-SignedHeaders"@, None) || lookup_ok(q, "X-Amz-Signature"@, None)
    ||| exists|a: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, h: Seq<char>, s: Seq<char>| #[trigger] presigned_text(q, a, c, d, e, h, s)
        && !((cred_of(c) is Some && cred_of(c).unwrap().1.len() == 0) && iso_form(d) && read_u32(e) is Some && ascii_chars(h) && sha256_form(s))
}
//@ fn src/signature_v4.rs PresignedUrl::from_query#get_info
//@ question * option
//@ sig pub fn presigned_get_info<'a>(qs: &'a OrderedQs) -> (r: Option<PresignedQs<'a>>)
//@ spec
    requires qs.inv(),
    ensures match r {
        Some(i) => presigned_text(qs.qs.pv(), i.x_amz_algorithm@, i.x_amz_credential@, i.x_amz_date@, i.x_amz_expires@, i.x_amz_signed_headers@, i.x_amz_signature@),
        None => presigned_bad(qs.qs.pv()),
    },
//@ text
impl<'a> PresignedUrl<'a> {
//@ fn src/signature_v4.rs PresignedUrl::from_query
//@ lift get_info presigned_get_info qs
//@ comb ok_or option
//@ comb map_err result
//@ question * same
//@ method parse vparse
//@ method split vsplit
//@ sig pub fn from_query(qs: &'a OrderedQs) -> (r: Result<Self, ParsePresignedUrlError>)
//@ spec
    requires qs.inv(),
    ensures match r {
        Ok(p) => p.amz_date.inv() && strs_sorted(views_ref(p.signed_headers@)) && presigned_ok(qs.qs.pv(), p),
        Err(_) => presigned_bad(qs.qs.pv()),
    },
//@ loop 0
    invariant
        it0.v().len() >= it0.i() >= 0,
        col0@ == it0.v().subrange(0, it0.i()),
        views_ref(it0.v()) == pieces(info.x_amz_signed_headers@, ';'),
    ensures it0.i() == it0.v().len(),
    decreases it0.v().len() - it0.i(),
//@ hint loop0_end
    proof { assert(col0@ =~= it0.v().subrange(0, it0.i())); }
//@ hint after_loop0
    proof { assert(col0@ =~= it0.v()); }
//@ text
}
