//@ include base.rs
//@ include bytes.rs
//@ include vref.rs
//@ include case.rs
//@ include nom.rs
//@ include nomb.rs
//@ include seqcat.rs
//@ include stream.rs
//@ nom bytes
//@ method as_mut vas_mut
//@ method as_ref vref
//@ method extend_from_slice vextend
//@ method starts_with vstarts
//@ rewrite io :: Error ==> IoError
//@ rewrite mem :: take ==> vtake
//@ rewrite Box :: pin ==> vid
//@ method into vinto_box
//@ method strip_prefix vstrip_prefix
//@ method eq_ignore_ascii_case veq_ignore_case
//@ comb map option
//@ rewrite . drain ( .. ) . collect ( ) ==> . vdrain ( )
//@ rewrite httparse :: ==>
//@ rewrite io :: Result < ==> IoResult <
//@ rewrite Bytes :: from ==> bytes_of
//@ item src/streams/multipart.rs FileStreamError
//@ item src/streams/multipart.rs CrlfLines
//@ item src/streams/multipart.rs ContentDisposition
//@ rewrite std :: str :: from_utf8 ==> vfrom_utf8
//@ text
pub mod sleq {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::*;
    pub broadcast proof fn lemma_slice_eq(a: &[u8], b: &[u8]) ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@) { assert(a@ =~= b@ <==> a@ == b@); }
}
broadcast use sleq::lemma_slice_eq;
impl VRef<[u8]> for Bytes {
    open spec fn vr(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vref(&self) -> (r: &[u8]) { unimplemented!() }
}
impl core::ops::Deref for Bytes {
    type Target = [u8];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn bytes_of(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { unimplemented!() }
impl Bytes {
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
}
pub trait VTake: Sized { spec fn tv(&self) -> Seq<u8>; fn take_it(&mut self) -> (r: Self) ensures r.tv() == old(self).tv(), final(self).tv().len() == 0; }
impl VTake for Bytes {
    open spec fn tv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn take_it(&mut self) -> (r: Self) { unimplemented!() }
}
impl VTake for Vec<u8> {
    open spec fn tv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn take_it(&mut self) -> (r: Self) { unimplemented!() }
}
impl<'a> VTake for &'a [u8] {
    open spec fn tv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn take_it(&mut self) -> (r: Self) { unimplemented!() }
}
pub fn vtake<T: VTake>(x: &mut T) -> (r: T) ensures r.tv() == old(x).tv(), final(x).tv().len() == 0 { x.take_it() }
pub trait VStartsB { spec fn sb(&self) -> Seq<u8>; fn vstarts(&self, p: &[u8]) -> (r: bool) ensures r == is_prefix(p@, self.sb()); }
impl VStartsB for [u8] {
    open spec fn sb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vstarts(&self, p: &[u8]) -> (r: bool) { unimplemented!() }
}
impl<const N: usize> VStartsB for [u8; N] {
    open spec fn sb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vstarts(&self, p: &[u8]) -> (r: bool) { unimplemented!() }
}
/// the positions of a byte, in order
pub open spec fn positions(s: Seq<u8>, b: u8, v: Seq<usize>) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]) < s.len() && s[v[k] as int] == b
    &&& forall|k: int, l: int| 0 <= k < l < v.len() ==> #[trigger] v[k] < #[trigger] v[l]
    &&& forall|j: int| 0 <= j < s.len() && #[trigger] s[j] == b ==> exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == j
}
#[verifier::external_body]
pub fn memchr_iter(b: u8, s: &[u8]) -> (r: VIt<usize>) ensures r.i() == 0, positions(s@, b, r.v())
{ unimplemented!() }
// ---------------------------------------------------------------- the file: everything before the first CR LF -- boundary
/// the delimiter stands at p
pub open spec fn occ(d: Seq<u8>, pat: Seq<u8>, p: int) -> bool { 0 <= p && p + pat.len() <= d.len() && d.subrange(p, p + pat.len()) == pat }
/// n is where the delimiter stands first
pub open spec fn first_occ(d: Seq<u8>, pat: Seq<u8>, n: int) -> bool { occ(d, pat, n) && forall|p: int| 0 <= p < n ==> !#[trigger] occ(d, pat, p) }
pub open spec fn no_occ(d: Seq<u8>, pat: Seq<u8>, n: int) -> bool { forall|p: int| 0 <= p < n ==> !#[trigger] occ(d, pat, p) }
pub open spec fn obytes(b: Option<Bytes>) -> Seq<u8> { match b { Some(x) => x@, None => Seq::empty() } }
/// what came after a
pub open spec fn since(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { b.subrange(a.len() as int, b.len() as int) }
pub broadcast proof fn lemma_since(a: Seq<u8>, x: Seq<u8>) ensures #[trigger] since(a, a + x) == x { assert(since(a, a + x) =~= x); }
pub open spec fn crlf_pat_ok(pat: Seq<u8>) -> bool { pat.len() > 0 && pat[0] == 13 }
/// a place in the middle part of a text can be judged from that part, as far as it reaches
pub proof fn lemma_occ(out: Seq<u8>, b: Seq<u8>, rest: Seq<u8>, pat: Seq<u8>)
    requires crlf_pat_ok(pat),
    ensures
        forall|p: int| #![trigger b.subrange(p, b.len() as int)] 0 <= p <= b.len() ==> {
            let r = b.subrange(p, b.len() as int);
            &&& r.len() >= pat.len() ==> occ(out + (b + rest), pat, out.len() + p) == is_prefix(pat, r)
            &&& r.len() < pat.len() && !is_prefix(r, pat) ==> !occ(out + (b + rest), pat, out.len() + p)
        },
        forall|p: int| #![trigger b[p]] 0 <= p < b.len() && b[p] != 13 ==> !occ(out + (b + rest), pat, out.len() + p),
{
    let d = out + (b + rest);
    assert forall|p: int| #![trigger b.subrange(p, b.len() as int)] 0 <= p <= b.len() implies ({
            let r = b.subrange(p, b.len() as int);
            &&& r.len() >= pat.len() ==> occ(d, pat, out.len() + p) == is_prefix(pat, r)
            &&& r.len() < pat.len() && !is_prefix(r, pat) ==> !occ(d, pat, out.len() + p)
        }) by {
        let r = b.subrange(p, b.len() as int);
        let q = out.len() + p;
        if r.len() >= pat.len() {
            assert(d.subrange(q, q + pat.len()) =~= r.subrange(0, pat.len() as int));
        } else if occ(d, pat, q) {
            assert(d.subrange(q, q + pat.len()).subrange(0, r.len() as int) =~= r);
        }
    }
    assert forall|p: int| #![trigger b[p]] 0 <= p < b.len() && b[p] != 13 implies !occ(d, pat, out.len() + p) by {
        let q = out.len() + p;
        if occ(d, pat, q) { assert(d.subrange(q, q + pat.len())[0] == d[q]); }
    }
}
//@ fn src/streams/multipart.rs FileStream::new/gen
//@ sig pub fn file_gen(y: &mut Yielder, body: Src, crlf_pat: Box<[u8]>, prev_bytes: Option<Bytes>) -> (r: Result<(), FileStreamError>)
//@ spec
    requires crlf_pat_ok(crlf_pat@),
    ensures ({
        let d = obytes(prev_bytes) + body.data();
        match r {
            Ok(_) => exists|n: int| #[trigger] first_occ(d, crlf_pat@, n) && final(y).out() == old(y).out() + d.subrange(0, n),
            Err(e) => no_occ(d, crlf_pat@, d.len() as int) && (exists|n: int| 0 <= n <= d.len() && final(y).out() == old(y).out() + #[trigger] d.subrange(0, n)) && body.broken() == (e is Io),
        }
    }),
//@ hint start
    let ghost b0 = body;
    let ghost y0 = *y;
    let ghost d = obytes(prev_bytes) + body.data();
    broadcast use {catl::lemma_cat_assoc, catl::lemma_cat_empty, lemma_since};
//@ loop 0
    invariant
        b0.broken() == body.broken(),
        y0 == *old(y), crlf_pat_ok(crlf_pat@),
        y.out() == y0.out() + since(y0.out(), y.out()),
        d == obytes(prev_bytes) + b0.data(),
        d == since(y0.out(), y.out()) + ((if state == 3 { buf@ } else { bytes@ }) + body.data()),
        no_occ(d, crlf_pat@, since(y0.out(), y.out()).len() as int),
        1 <= state <= 3,
        state != 2 ==> bytes@.len() == 0,
        if state == 3 { buf@.len() < crlf_pat@.len() } else { buf@.len() == 0 },
    decreases body.left(), (if state == 2 { 1int } else { 0int }),
//@ hint loop0_start
    assert(d.subrange(0, since(y0.out(), y.out()).len() as int) =~= since(y0.out(), y.out()));
//@ hint before_loop1
    proof { lemma_occ(since(y0.out(), y.out()), bytes@, body.data(), crlf_pat@); }
    let ghost (w, o) = (bytes@, since(y0.out(), y.out()));
//@ loop 1
    invariant_except_break
        forall|k: int| 0 <= k < it1.i() ==> !#[trigger] occ(d, crlf_pat@, o.len() + it1.v()[k]),
    invariant
        state == 2, buf@.len() == 0,
        y.out() == y0.out() + o,
        bytes@ == w, positions(w, 13, it1.v()),
        d == o + (w + body.data()),
        0 <= it1.i() <= it1.v().len(),
    ensures
        no_occ(d, crlf_pat@, (o.len() + w.len()) as int),
    decreases it1.v().len() - it1.i(),
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ hint loop1_exit
    assert(it1.i() == it1.v().len());
    assert forall|p: int| 0 <= p < o.len() + w.len() implies !#[trigger] occ(d, crlf_pat@, p) by {
        if p >= o.len() {
            let q = p - o.len();
            if w[q] == 13 { let k = choose|k: int| 0 <= k < it1.v().len() && #[trigger] it1.v()[k] == q; assert(!occ(d, crlf_pat@, o.len() + it1.v()[k])); }
        }
    }
//@ hint loop1_body
    assert(it1.v()[it1.i() - 1] == idx);
    assert forall|p: int| 0 <= p < o.len() + idx implies !#[trigger] occ(d, crlf_pat@, p) by {
        if p >= o.len() {
            let q = p - o.len();
            if w[q] == 13 {
                let k = choose|k: int| 0 <= k < it1.v().len() && #[trigger] it1.v()[k] == q;
                if k > it1.i() - 1 { assert(it1.v()[it1.i() - 1] < it1.v()[k]); }
                assert(!occ(d, crlf_pat@, o.len() + it1.v()[k]));
            }
        }
    }
    assert(no_occ(d, crlf_pat@, o.len() + idx));
    assert(d.subrange(0, o.len() + idx) =~= o + w.subrange(0, idx as int));
    let ghost t = w.subrange(idx as int, w.len() as int);
    assert(w.subrange(0, idx as int) + t =~= w);
    assert(t.len() >= crlf_pat@.len() && is_prefix(crlf_pat@, t) ==> first_occ(d, crlf_pat@, o.len() + idx));
//@ text
// ---------------------------------------------------------------- lines
/// where the first CR LF stands, or the length
pub open spec fn crlf_at(s: Seq<u8>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else if s.len() >= 2 && s[0] == 13 && s[1] == 10 { 0 } else { 1 + crlf_at(s.subrange(1, s.len() as int)) } }
pub open spec fn crlf(s: Seq<u8>, i: int) -> bool { 0 <= i && i + 1 < s.len() && s[i] == 13 && s[i + 1] == 10 }
pub proof fn lemma_crlf_at(s: Seq<u8>)
    ensures
        0 <= crlf_at(s) <= s.len(),
        crlf_at(s) < s.len() ==> crlf(s, crlf_at(s)),
        forall|j: int| 0 <= j < crlf_at(s) ==> !#[trigger] crlf(s, j),
    decreases s.len(),
{
    if s.len() > 0 && !crlf(s, 0) {
        let t = s.subrange(1, s.len() as int);
        lemma_crlf_at(t);
        assert forall|j: int| 0 <= j < crlf_at(s) implies !#[trigger] crlf(s, j) by { if j > 0 { assert(crlf(s, j) == crlf(t, j - 1)); } }
        if crlf_at(s) < s.len() { assert(crlf(t, crlf_at(t))); }
    }
}
/// the first line of a text, and what follows it
pub open spec fn line_of(s: Seq<u8>) -> (Seq<u8>, Seq<u8>) {
    let i = crlf_at(s);
    if i < s.len() { (s.subrange(0, i), s.subrange(i + 2, s.len() as int)) } else { (s, Seq::empty()) }
}
/// the first line that equals the delimiter: where it starts, and what follows it
pub open spec fn delim(s: Seq<u8>, pat: Seq<u8>) -> Option<(int, Seq<u8>)>
    decreases s.len(), when s.len() >= 0 via delim_decreases
{
    if s.len() == 0 { None }
    else if line_of(s).0 == pat { Some((0, line_of(s).1)) }
    else { match delim(line_of(s).1, pat) { Some((k, t)) => Some((k + line_of(s).0.len() + 2, t)), None => None } }
}
#[via_fn]
proof fn delim_decreases(s: Seq<u8>, pat: Seq<u8>) { lemma_crlf_at(s); }
pub proof fn lemma_delim(s: Seq<u8>, pat: Seq<u8>)
    ensures delim(s, pat) is Some ==> 0 <= delim(s, pat)->Some_0.0 && delim(s, pat)->Some_0.0 + pat.len() + delim(s, pat)->Some_0.1.len() <= s.len(),
    decreases s.len(),
{
    lemma_crlf_at(s);
    if s.len() > 0 { lemma_delim(line_of(s).1, pat); }
}
impl<'a> CrlfLines<'a> {
//@ fn src/streams/multipart.rs CrlfLines::next_line
//@ sig pub fn next_line(&mut self) -> (r: Option<&'a [u8]>)
//@ spec
    ensures
        old(self).slice@.len() == 0 ==> r is None && final(self).slice@.len() == 0,
        old(self).slice@.len() > 0 ==> r is Some && (r->Some_0@, final(self).slice@) == line_of(old(self).slice@),
//@ hint start
    let ghost s = self.slice@;
    proof { lemma_crlf_at(s); }
//@ loop 0
    invariant
        self.slice@ == s, positions(s, 10, it0.v()),
        forall|k: int| 0 <= k < it0.i() ==> !crlf(s, #[trigger] it0.v()[k] - 1),
        0 <= it0.i() <= it0.v().len(),
    ensures
        forall|j: int| 0 <= j < s.len() ==> !#[trigger] crlf(s, j),
    decreases it0.v().len() - it0.i(),
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ hint loop0_body
    assert(it0.v()[it0.i() - 1] == idx);
    assert forall|j: int| 0 <= j < idx - 1 implies !#[trigger] crlf(s, j) by {
        if s[j + 1] == 10 {
            let k = choose|k: int| 0 <= k < it0.v().len() && #[trigger] it0.v()[k] == j + 1;
            if k > it0.i() - 1 { assert(it0.v()[it0.i() - 1] < it0.v()[k]); }
            assert(!crlf(s, it0.v()[k] - 1));
        }
    }
    assert(crlf(s, idx - 1) ==> crlf_at(s) == idx - 1);
//@ hint loop0_exit
    assert forall|j: int| 0 <= j < s.len() implies !#[trigger] crlf(s, j) by {
        if j + 1 < s.len() && s[j + 1] == 10 {
            let k = choose|k: int| 0 <= k < it0.v().len() && #[trigger] it0.v()[k] == j + 1;
            assert(!crlf(s, it0.v()[k] - 1));
        }
    }
//@ fn src/streams/multipart.rs CrlfLines::split_to
//@ question * option
//@ sig pub fn split_to(&mut self, line_pat: &[u8]) -> (r: Option<&'a [u8]>)
//@ spec
    ensures match delim(old(self).slice@, line_pat@) {
        None => r is None,
        Some((k, t)) => r is Some && 0 <= k <= old(self).slice@.len() && r->Some_0@ == old(self).slice@.subrange(0, k) && final(self).slice@ == t,
    },
//@ hint start
    let ghost s = self.slice@;
    proof { lemma_delim(s, line_pat@); }
    assert(self.slice.len() == s.len());
//@ loop 0
    invariant
        self.slice@ == s,
        lines.slice@.len() > 0 ==> len + lines.slice@.len() == s.len(),
        delim(s, line_pat@) == match delim(lines.slice@, line_pat@) { Some((k, t)) => Some((k + len, t)), None => None },
        s == old(self).slice@, s.len() <= usize::MAX, delim(s, line_pat@) is Some ==> 0 <= delim(s, line_pat@)->Some_0.0 <= s.len(),
    decreases lines.slice@.len(),
//@ hint loop0_start
    proof { lemma_crlf_at(lines.slice@); }
//@ text
}
// ---------------------------------------------------------------- Content-Disposition
#[verifier::external_body]
pub struct Utf8Error { _p: () }
#[verifier::external_body]
pub fn vfrom_utf8<'a>(b: &'a [u8]) -> (r: Result<&'a str, Utf8Error>)
    ensures match r { Ok(s) => valid_utf8(b@) && s@ == decode_utf8(b@), Err(_) => !valid_utf8(b@) }
{ unimplemented!() }
/// lead, then text up to a quote
pub open spec fn quoted(v: Seq<u8>, lead: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    if is_prefix(lead, v) {
        let w = bfrom(v, lead.len() as int);
        let k = first_pos(w, 34u8);
        if 0 < k < w.len() && valid_utf8(w.subrange(0, k)) { Some((w.subrange(0, k), bfrom(w, k + 1))) } else { None }
    } else { None }
}
/// form-data; name="
pub open spec fn lead_name() -> Seq<u8> { seq![102u8, 111, 114, 109, 45, 100, 97, 116, 97, 59, 32, 110, 97, 109, 101, 61, 34] }
/// ; filename="
pub open spec fn lead_filename() -> Seq<u8> { seq![59u8, 32, 102, 105, 108, 101, 110, 97, 109, 101, 61, 34] }
/// form-data; name="NAME" or form-data; name="NAME"; filename="FILE"
pub open spec fn disposition(v: Seq<u8>) -> Option<(Seq<char>, Option<Seq<char>>)> {
    match quoted(v, lead_name()) {
        None => None,
        Some((n, r)) => if r.len() == 0 { Some((decode_utf8(n), None)) } else {
            match quoted(r, lead_filename()) {
                Some((f, r2)) => if r2.len() == 0 { Some((decode_utf8(n), Some(decode_utf8(f)))) } else { None },
                None => None,
            }
        }
    }
}
pub open spec fn ld1() -> Seq<u8> { seq![102u8, 111, 114, 109, 45, 100, 97, 116, 97, 59, 32] }
pub open spec fn ld2() -> Seq<u8> { seq![110u8, 97, 109, 101, 61, 34] }
pub open spec fn ld3() -> Seq<u8> { seq![59u8, 32] }
pub open spec fn ld4() -> Seq<u8> { seq![102u8, 105, 108, 101, 110, 97, 109, 101, 61, 34] }
proof fn lemma_prefix_cat(a: Seq<u8>, b: Seq<u8>, v: Seq<u8>)
    ensures is_prefix(a + b, v) == (is_prefix(a, v) && is_prefix(b, bfrom(v, a.len() as int)))
{
    let t = bfrom(v, a.len() as int);
    if is_prefix(a, v) && is_prefix(b, t) {
        assert(v.subrange(0, (a + b).len() as int) =~= a + b) by {
            assert forall|i: int| 0 <= i < a.len() + b.len() implies v[i] == (a + b)[i] by {
                if i < a.len() { assert(v.subrange(0, a.len() as int)[i] == a[i]); } else { assert(t.subrange(0, b.len() as int)[i - a.len()] == b[i - a.len()]); }
            }
        }
    }
    if is_prefix(a + b, v) {
        let w = v.subrange(0, (a + b).len() as int);
        assert forall|i: int| 0 <= i < a.len() implies v[i] == a[i] by { assert(w[i] == (a + b)[i]); }
        assert forall|i: int| 0 <= i < b.len() implies t[i] == b[i] by { assert(w[i + a.len()] == (a + b)[i + a.len()]); }
        assert(v.subrange(0, a.len() as int) =~= a);
        assert(t.subrange(0, b.len() as int) =~= b);
    }
}
pub proof fn lemma_leads()
    ensures
        forall|v: Seq<u8>| #[trigger] is_prefix(lead_name(), v) == (is_prefix(ld1(), v) && is_prefix(ld2(), bfrom(v, 11))),
        forall|v: Seq<u8>| #[trigger] is_prefix(lead_filename(), v) == (is_prefix(ld3(), v) && is_prefix(ld4(), bfrom(v, 2))),
        lead_name().len() == 17, lead_filename().len() == 12, ld1().len() == 11, ld2().len() == 6, ld3().len() == 2, ld4().len() == 10,
{
    assert(lead_name() =~= ld1() + ld2());
    assert(lead_filename() =~= ld3() + ld4());
    assert forall|v: Seq<u8>| #[trigger] is_prefix(lead_name(), v) == (is_prefix(ld1(), v) && is_prefix(ld2(), bfrom(v, 11))) by { lemma_prefix_cat(ld1(), ld2(), v); }
    assert forall|v: Seq<u8>| #[trigger] is_prefix(lead_filename(), v) == (is_prefix(ld3(), v) && is_prefix(ld4(), bfrom(v, 2))) by { lemma_prefix_cat(ld3(), ld4(), v); }
}
pub open spec fn os(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub proof fn lemma_disposition(v: Seq<u8>)
    ensures ({
        let w = bfrom(v, 17);
        let k = first_pos(w, 34u8);
        let r = bfrom(w, k + 1);
        let x = bfrom(r, 12);
        let l = first_pos(x, 34u8);
        let r2 = bfrom(x, l + 1);
        &&& v.len() >= 17 ==> bfrom(bfrom(v, 11), 6) == w
        &&& k < w.len() ==> bfrom(bfrom(w, k), 1) == r
        &&& r.len() >= 12 ==> bfrom(bfrom(r, 2), 10) == x
        &&& l < x.len() ==> bfrom(bfrom(x, l), 1) == r2
        &&& is_prefix(lead_name(), v) ==> v.len() >= 17
        &&& is_prefix(lead_filename(), r) ==> r.len() >= 12
        &&& 0 <= k <= w.len()
        &&& 0 <= l <= x.len()
        &&& disposition(v) == if is_prefix(lead_name(), v) && 0 < k < w.len() && valid_utf8(w.subrange(0, k)) {
            if r.len() == 0 { Some((decode_utf8(w.subrange(0, k)), None)) }
            else if is_prefix(lead_filename(), r) && 0 < l < x.len() && valid_utf8(x.subrange(0, l)) && r2.len() == 0 { Some((decode_utf8(w.subrange(0, k)), Some(decode_utf8(x.subrange(0, l))))) }
            else { None }
        } else { None }
    }),
{
    let w = bfrom(v, 17);
    lemma_first_pos(w, 34u8);
    let k = first_pos(w, 34u8);
    let r = bfrom(w, k + 1);
    let x = bfrom(r, 12);
    lemma_first_pos(x, 34u8);
    let l = first_pos(x, 34u8);
    if v.len() >= 17 { nombl::lemma_bfrom(v, 11, 6); }
    if k < w.len() { nombl::lemma_bfrom(w, k, 1); }
    if r.len() >= 12 { nombl::lemma_bfrom(r, 2, 10); }
    if l < x.len() { nombl::lemma_bfrom(x, l, 1); }
}
//@ fn src/streams/multipart.rs parse_content_disposition
//@ question * same
//@ sig pub fn parse_content_disposition<'a>(input: &'a [u8]) -> (r: IResB<'a, ContentDisposition<'a>>)
//@ spec
    ensures match r {
        Ok((_, c)) => disposition(input@) == Some((c.name@, os(c.filename))),
        Err(_) => disposition(input@) is None,
    },
//@ hint start
    proof { lemma_leads(); lemma_disposition(input@); }
//@ hide lead_name lead_filename is_prefix disposition quoted first_pos
//@ text
// ---------------------------------------------------------------- the stream of the file's bytes
/// transform_stream: runs a generator and hands on what it yields (trusted)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(F)]
pub struct AsyncTryStream<T, E, F> { _p: (T, E, F) }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SyncBoxFuture<'a, T> { _p: (&'a u8, T) }
pub fn vid<T>(t: T) -> (r: T) ensures r == t { t }
impl<F> AsyncTryStream<Bytes, FileStreamError, F> {
    /// what it yields, and how it ends
    pub uninterp spec fn out(&self) -> Seq<u8>;
    pub uninterp spec fn end(&self) -> Result<(), FileStreamError>;
    #[verifier::external_body]
    pub fn new<G: FnOnce(&mut Yielder) -> Result<(), FileStreamError>>(g: G) -> (r: Self)
        requires forall|y: &mut Yielder| g.requires((y,)),
        ensures exists|y: &mut Yielder| #[trigger] g.ensures((y,), r.end()) && (*final(y)).out() == (*y).out() + r.out(),
    { unimplemented!() }
}
/// what the file stream of a body d with delimiter pat gives
pub open spec fn file_stream(d: Seq<u8>, pat: Seq<u8>, out: Seq<u8>, end: Result<(), FileStreamError>, broken: bool) -> bool {
    match end {
        Ok(_) => first_occ(d, pat, out.len() as int) && out == d.subrange(0, out.len() as int),
        Err(e) => no_occ(d, pat, d.len() as int) && is_prefix(out, d) && broken == (e is Io),
    }
}
pub open spec fn file_ran(d: Seq<u8>, pat: Seq<u8>, y: Yielder, z: Yielder, end: Result<(), FileStreamError>, broken: bool) -> bool {
    match end {
        Ok(_) => exists|n: int| #[trigger] first_occ(d, pat, n) && z.out() == y.out() + d.subrange(0, n),
        Err(e) => no_occ(d, pat, d.len() as int) && (exists|n: int| 0 <= n <= d.len() && z.out() == y.out() + #[trigger] d.subrange(0, n)) && broken == (e is Io),
    }
}
pub trait VBoxed { fn vinto_box(self) -> Box<[u8]>; }
impl VBoxed for Vec<u8> {
    #[verifier::external_body]
    fn vinto_box(self) -> (r: Box<[u8]>) ensures r@ == self@ { self.into_boxed_slice() }
}
//@ item src/streams/multipart.rs FileStream
//@ text
/// CR LF -- boundary
pub open spec fn delimiter(boundary: Seq<u8>) -> Seq<u8> { seq![13u8, 10, 45, 45] + boundary }
pub broadcast proof fn lemma_file_ran(d: Seq<u8>, pat: Seq<u8>, y: Yielder, z: Yielder, end: Result<(), FileStreamError>, broken: bool, out: Seq<u8>)
    requires #[trigger] file_ran(d, pat, y, z, end, broken), z.out() == #[trigger] (y.out() + out),
    ensures file_stream(d, pat, out, end, broken),
{
    lemma_since(y.out(), out);
    if end is Ok {
        let n = choose|n: int| #[trigger] first_occ(d, pat, n) && z.out() == y.out() + d.subrange(0, n);
        lemma_since(y.out(), d.subrange(0, n));
    } else {
        let n = choose|n: int| 0 <= n <= d.len() && z.out() == y.out() + #[trigger] d.subrange(0, n);
        lemma_since(y.out(), d.subrange(0, n));
    }
}
pub proof fn lemma_delimiter(b: Seq<u8>)
    ensures delimiter(b).len() == 4 + b.len(), delimiter(b)[0] == 13,
        forall|x: Seq<u8>| #![trigger x + b] x.len() == 4 && x[0] == 13 && x[1] == 10 && x[2] == 45 && x[3] == 45 ==> x + b == delimiter(b),
{
    assert forall|x: Seq<u8>| #![trigger x + b] x.len() == 4 && x[0] == 13 && x[1] == 10 && x[2] == 45 && x[3] == 45 implies x + b == delimiter(b) by {
        assert(x =~= seq![13u8, 10, 45, 45]);
    }
}
impl FileStream {
//@ fn src/streams/multipart.rs FileStream::new
//@ alias gen file_gen
//@ closure 0
|y: &mut Yielder| -> (o: Result<(), FileStreamError>) ensures file_ran(obytes(prev_bytes) + body.data(), crlf_pat@, *old(y), *final(y), o, body.broken())
//@ sig pub fn new(body: Src, boundary: &[u8], prev_bytes: Option<Bytes>) -> (r: FileStream)
//@ spec
    ensures file_stream(obytes(prev_bytes) + body.data(), delimiter(boundary@), r.inner.out(), r.inner.end(), body.broken()),
//@ hint start
    broadcast use {catl::lemma_cat_empty, lemma_file_ran};
    proof { lemma_delimiter(boundary@); }
//@ text
}
// ---------------------------------------------------------------- trusted: httparse, std
pub type IoResult<T> = Result<T, IoError>;
#[derive(Clone, Copy)]
pub struct Header<'a> { pub name: &'a str, pub value: &'a [u8] }
#[verifier::external_body]
pub const EMPTY_HEADER: Header<'static> = Header { name: "", value: &[] };
pub enum Status<T> { Complete(T), Partial }
#[verifier::external_body]
pub struct HpError { _p: () }
pub type HeadV = (Seq<char>, Seq<u8>);
pub open spec fn heads_v(h: Seq<Header>) -> Seq<HeadV> { h.map_values(|x: Header| (x.name@, x.value@)) }
/// a header block at the start of a text: how long it is, and its fields; More when it goes on
pub enum Heads { More, Bad, Full(int, Seq<HeadV>) }
/// at most n fields
pub uninterp spec fn heads(s: Seq<u8>, n: nat) -> Heads;
/// a header block is read from left to right
pub axiom fn axiom_heads(s: Seq<u8>, t: Seq<u8>, n: nat)
    ensures
        s.len() == 0 ==> heads(s, n) is More,
        !(heads(s, n) is More) ==> heads(s + t, n) == heads(s, n),
        match heads(s, n) { Heads::Full(k, hs) => 0 < k <= s.len() && hs.len() <= n, _ => true },
        heads(s, 2) is Full && n >= 2 ==> heads(s, n) == heads(s, 2);
#[verifier::external_body]
pub fn parse_headers<'b, 'h, const N: usize>(src: &'b [u8], dst: &'h mut [Header<'b>; N]) -> (r: Result<Status<(usize, &'h [Header<'b>])>, HpError>)
    ensures match r {
        Ok(Status::Complete((k, hs))) => heads(src@, N as nat) == Heads::Full(k as int, heads_v(hs@)),
        Ok(Status::Partial) => heads(src@, N as nat) is More,
        Err(_) => heads(src@, N as nat) is Bad,
    }
{ unimplemented!() }
impl Bytes {
    #[verifier::external_body]
    pub fn copy_from_slice(s: &[u8]) -> (r: Bytes) ensures r@ == s@ { unimplemented!() }
}
pub trait VStrip { fn vstrip_prefix<const N: usize>(&self, p: &[u8; N]) -> Option<&[u8]>; }
impl VStrip for [u8] {
    #[verifier::external_body]
    fn vstrip_prefix<const N: usize>(&self, p: &[u8; N]) -> (r: Option<&[u8]>)
        ensures match r { Some(x) => is_prefix(p@, self@) && x@ == self@.subrange(N as int, self@.len() as int), None => !is_prefix(p@, self@) }
    { unimplemented!() }
}
pub trait VDrain<T> { fn vdrain(&mut self) -> Vec<T>; }
impl<T> VDrain<T> for Vec<T> {
    #[verifier::external_body]
    fn vdrain(&mut self) -> (r: Vec<T>) ensures r@ == old(self)@, final(self)@.len() == 0 { unimplemented!() }
}
//@ item src/streams/multipart.rs File
//@ item src/streams/multipart.rs Multipart
//@ text
// ---------------------------------------------------------------- multipart/form-data (RFC 7578) as S3 posts it: fields, then the file
pub type Field = (Seq<char>, Seq<char>);
pub open spec fn fields_v(f: Seq<(String, String)>) -> Seq<Field> { f.map_values(|x: (String, String)| (x.0@, x.1@)) }
/// the last field of that name
pub open spec fn named(hs: Seq<HeadV>, name: Seq<char>) -> Option<Seq<u8>>
    decreases hs.len(),
{ if hs.len() == 0 { None } else if lower(hs.last().0) == lower(name) { Some(hs.last().1) } else { named(hs.drop_last(), name) } }
pub enum Form { More, Bad, Done { fields: Seq<Field>, filename: Seq<char>, ctype: Seq<char>, rest: Seq<u8> } }
/// what stands before the line break that ends it
pub open spec fn value_of(t: Seq<u8>, j: int) -> Seq<u8> { t.subrange(0, if j >= 2 { j - 2 } else { 0 }) }
/// the parts at the start of s, after the given fields
pub open spec fn parts(s: Seq<u8>, pw: Seq<u8>, n: nat, fields: Seq<Field>) -> Form
    decreases s.len(), when s.len() >= 0 via parts_decreases
{
    match heads(s, n) {
        Heads::More => Form::More,
        Heads::Bad => Form::Bad,
        Heads::Full(k, hs) => {
            let t = s.subrange(k, s.len() as int);
            match named(hs, "Content-Disposition"@) {
                None => Form::More,
                Some(v) => match disposition(v) {
                    None => Form::Bad,
                    Some((name, Some(filename))) => match named(hs, "Content-Type"@) {
                        None => Form::Done { fields, filename, ctype: "text/plain"@, rest: t },
                        Some(c) => if valid_utf8(c) { Form::Done { fields, filename, ctype: decode_utf8(c), rest: t } } else { Form::Bad },
                    },
                    Some((name, None)) => match delim(t, pw) {
                        None => Form::More,
                        Some((j, u)) => if valid_utf8(value_of(t, j)) { parts(u, pw, n, fields.push((name, decode_utf8(value_of(t, j))))) } else { Form::Bad },
                    },
                }
            }
        }
    }
}
#[via_fn]
proof fn parts_decreases(s: Seq<u8>, pw: Seq<u8>, n: nat, fields: Seq<Field>) {
    axiom_heads(s, s, n);
    if let Heads::Full(k, hs) = heads(s, n) { lemma_delim(s.subrange(k, s.len() as int), pw); }
}
pub open spec fn dashes() -> Seq<u8> { seq![45u8, 45] }
pub open spec fn crlf2() -> Seq<u8> { seq![13u8, 10] }
/// a form whose delimiter line is pw
pub open spec fn form_lines(d: Seq<u8>, pw: Seq<u8>, n: nat) -> Form {
    let e = if is_prefix(crlf2(), d) { d.subrange(2, d.len() as int) } else { d };
    if crlf_at(e) < e.len() && line_of(e).0 == pw { parts(line_of(e).1, pw, n, Seq::empty()) }
    else if is_prefix(e, pw + crlf2()) || is_prefix(d, crlf2()) { Form::More }
    else { Form::Bad }
}
pub open spec fn form(d: Seq<u8>, boundary: Seq<u8>, n: nat) -> Form { form_lines(d, dashes() + boundary, n) }
/// m is the form, its file's bytes still to be read
pub open spec fn form_is(m: Multipart, f: Form, boundary: Seq<u8>, later: Seq<u8>, broken: bool) -> bool {
    match f {
        Form::Done { fields, filename, ctype, rest } => {
            &&& fields_v(m.fields@) == fields
            &&& m.file.name@ == filename
            &&& m.file.content_type@ == ctype
            &&& file_stream(rest + later, delimiter(boundary), m.file.stream.inner.out(), m.file.stream.inner.end(), broken)
        }
        _ => false
    }
}
//@ fn src/streams/multipart.rs generate_format_error
//@ sig pub fn generate_format_error() -> (r: IoError)
//@ assumed
//@ text
proof fn lemma_value() ensures forall|t: Seq<u8>, j: int, m: int| #![trigger t.subrange(0, j).subrange(0, m)] 0 <= m <= j <= t.len() ==> t.subrange(0, j).subrange(0, m) == t.subrange(0, m) {
    assert forall|t: Seq<u8>, j: int, m: int| #![trigger t.subrange(0, j).subrange(0, m)] 0 <= m <= j <= t.len() implies t.subrange(0, j).subrange(0, m) == t.subrange(0, m) by { assert(t.subrange(0, j).subrange(0, m) =~= t.subrange(0, m)); }
}
proof fn lemma_fields_push() ensures forall|f: Seq<(String, String)>, x: (String, String)| #[trigger] fields_v(f.push(x)) == fields_v(f).push((x.0@, x.1@)) {
    assert forall|f: Seq<(String, String)>, x: (String, String)| #[trigger] fields_v(f.push(x)) == fields_v(f).push((x.0@, x.1@)) by { assert(fields_v(f.push(x)) =~= fields_v(f).push((x.0@, x.1@))); }
}
proof fn lemma_other_name() ensures lower("Content-Disposition"@) != lower("Content-Type"@) {
    reveal_strlit("Content-Disposition"); reveal_strlit("Content-Type");
    assert(lower("Content-Disposition"@).len() == 19 && lower("Content-Type"@).len() == 12);
}
pub open spec fn ob(o: Option<&[u8]>) -> Option<Seq<u8>> { match o { Some(x) => Some(x@), None => None } }
proof fn lemma_first_line(d: Seq<u8>, pw: Seq<u8>, n: nat)
    ensures ({
        let e = if is_prefix(crlf2(), d) { d.subrange(2, d.len() as int) } else { d };
        &&& is_prefix(e, pw + crlf2()) || is_prefix(d, crlf2()) ==> form_lines(d, pw, n) is More
        &&& !(is_prefix(e, pw + crlf2()) || is_prefix(d, crlf2())) ==>
            d.len() > 0 && e.len() > 0
            && (is_prefix(crlf2(), d) ==> line_of(d) == (Seq::<u8>::empty(), e))
            && (line_of(d).0.len() == 0 ==> is_prefix(crlf2(), d))
            && form_lines(d, pw, n) == if line_of(e).0 == pw { parts(line_of(e).1, pw, n, Seq::empty()) } else { Form::Bad }
    }),
{
    let e = if is_prefix(crlf2(), d) { d.subrange(2, d.len() as int) } else { d };
    lemma_crlf_at(e);
    lemma_crlf_at(d);
    let p = pw + crlf2();
    axiom_heads(line_of(e).1, Seq::empty(), n);
    if is_prefix(crlf2(), d) {
        let q = d.subrange(0, 2);
        assert(q == crlf2());
        assert(q[0] == d[0] && q[1] == d[1]);
        assert(crlf(d, 0));
        assert(d.subrange(0, 0) =~= Seq::<u8>::empty());
    } else if d.len() >= 2 && crlf(d, 0) {
        assert(d.subrange(0, 2) =~= crlf2());
    }
    if is_prefix(d, crlf2()) && d.len() == 2 { assert(d.subrange(0, 2) =~= crlf2()); }
    if is_prefix(e, p) && crlf_at(e) < e.len() && line_of(e).0 == pw {
        assert(e.len() == p.len());
        assert(line_of(e).1.len() == 0);
    }
    if e.len() == 0 { assert(p.subrange(0, 0) =~= e); }
    if d.len() == 0 { assert(crlf2().subrange(0, 0) =~= d); }
    if crlf_at(e) == e.len() && e == pw { assert(p.subrange(0, e.len() as int) =~= e); }
    if is_prefix(d, crlf2()) && line_of(e).0 == pw && crlf_at(e) < e.len() {
        assert(d.len() <= 2);
        assert(d =~= crlf2());
    }
}
//@ fn src/streams/multipart.rs try_parse
//@ sig pub fn try_parse(body: Src, pat: Box<[u8]>, buf: &[u8], fields: &mut Vec<(String, String)>, boundary: &[u8]) -> (r: Result<IoResult<Multipart>, (Src, Box<[u8]>)>)
//@ spec
    requires pat@ == dashes() + boundary@ + crlf2(),
    ensures exists|n: nat| n >= 2 && match r {
        Ok(Ok(m)) => form_is(m, #[trigger] form(buf@, boundary@, n), boundary@, body.data(), body.broken()),
        Ok(Err(_)) => form(buf@, boundary@, n) is Bad,
        Err((b, p)) => form(buf@, boundary@, n) is More && b == body && p == pat,
    },
//@ hint start
    broadcast use catl::lemma_cat_empty;
    let ghost d = buf@;
    let ghost pw = dashes() + boundary@;
    proof { lemma_first_line(d, pw, 2); assert(pat@.subrange(0, pat@.len() - 2) =~= pw); }
    let ghost f2 = form(buf@, boundary@, 2);
//@ hint after_let_headers
    let ghost n = headers@.len() as nat;
    let ghost fnn = form(buf@, boundary@, n);
    proof { lemma_first_line(d, pw, n); }
//@ loop 0
    invariant
        n >= 2, n == headers@.len(), d == buf@, pw == dashes() + boundary@, fnn == form(buf@, boundary@, n),
        pat_without_crlf@ == pw,
        form_lines(d, pw, n) == parts(lines.slice@, pw, n, fields_v(fields@)),
    decreases lines.slice@.len(),
//@ hint loop0_start
    let ghost s0 = lines.slice@;
    let ghost f0 = fields_v(fields@);
    proof { axiom_heads(s0, Seq::empty(), n); lemma_value(); lemma_fields_push(); if let Heads::Full(k, _) = heads(s0, n) { lemma_delim(s0.subrange(k, s0.len() as int), pw); } }
//@ hint before_loop0
    assert(fields_v(fields@) =~= Seq::<Field>::empty());
//@ hint loop1_body
    let ghost hv = heads_v(parsed_headers@);
    proof { lemma_other_name(); }
    assert(hv.subrange(0, it1.i()).drop_last() =~= hv.subrange(0, it1.i() - 1));
    assert(hv.subrange(0, it1.i()).last() == hv[it1.i() - 1]);
//@ hint after_loop1
    assert(heads_v(parsed_headers@).subrange(0, it1.i()) =~= heads_v(parsed_headers@));
//@ loop 1
    invariant
        0 <= it1.i() <= it1.v().len(),
        it1.v() == parsed_headers@,
        ob(content_disposition_bytes) == named(heads_v(parsed_headers@).subrange(0, it1.i()), "Content-Disposition"@),
        ob(content_type_bytes) == named(heads_v(parsed_headers@).subrange(0, it1.i()), "Content-Type"@),
    ensures it1.i() == it1.v().len(),
    decreases it1.v().len() - it1.i(),

//@ text
// ---------------------------------------------------------------- what is read of a text stays when more arrives
proof fn lemma_line_ext(s: Seq<u8>, x: Seq<u8>)
    requires crlf_at(s) < s.len(),
    ensures crlf_at(s + x) == crlf_at(s), line_of(s + x).0 == line_of(s).0, line_of(s + x).1 == line_of(s).1 + x,
{
    lemma_crlf_at(s);
    lemma_crlf_at(s + x);
    let (i, k) = (crlf_at(s), crlf_at(s + x));
    assert(crlf(s + x, i));
    if k < i { assert(crlf(s, k)); }
    assert(i == k);
    assert((s + x).subrange(0, i) =~= s.subrange(0, i));
    assert((s + x).subrange(i + 2, (s + x).len() as int) =~= s.subrange(i + 2, s.len() as int) + x);
}
proof fn lemma_delim_ext(t: Seq<u8>, x: Seq<u8>, pw: Seq<u8>)
    ensures
        match delim(t, pw) {
            Some((j, u)) => 0 <= j && j + pw.len() + u.len() <= t.len()
                && (u.len() > 0 ==> delim(t + x, pw) == Some((j, u + x)))
                && (u.len() == 0 ==> match delim(t + x, pw) { Some((k, w)) => k == j || (k > j + 1 && (j == 0 || (j >= 2 && t[j - 2] == 13))), None => true }),
            None => true,
        },
    decreases t.len(),
{
    lemma_delim(t, pw);
    lemma_delim(t + x, pw);
    lemma_crlf_at(t);
    if t.len() > 0 {
        if crlf_at(t) < t.len() {
            let r = line_of(t).1;
            lemma_line_ext(t, x);
            lemma_delim_ext(r, x, pw);
            lemma_delim(r, pw);
            lemma_delim(r + x, pw);
            assert((t + x).len() > 0);
            if line_of(t).0 != pw && delim(t, pw) is Some {
                let i = crlf_at(t);
                let j = delim(r, pw)->Some_0.0;
                if j == 0 { assert(t[i] == 13); } else if j >= 2 { assert(r[j - 2] == t[j + i]); }
                assert(delim(t, pw)->Some_0.0 == j + i + 2);
            }
        } else if t == pw {
            assert(line_of(t) == (t, Seq::<u8>::empty()));
            if line_of(t + x).0 != pw {
                lemma_delim(line_of(t + x).1, pw);
            }
        } else {
            assert(delim(Seq::<u8>::empty(), pw) is None);
        }
    }
}
proof fn lemma_cut(v: Seq<u8>, k: int)
    requires valid_utf8(v), 0 <= k < v.len(), v[k] == 13,
    ensures valid_utf8(v.subrange(0, k)),
{
    is_char_boundary_iff_not_is_continuation_byte(v, k);
    assert(!is_continuation_byte(v[k])) by { assert(13u8 & 0xC0u8 != 0x80u8) by (bit_vector); }
    valid_utf8_split(v, k);
}
/// a text that is as it should be stays that, a text that is not becomes no form
proof fn lemma_parts_ext(s: Seq<u8>, x: Seq<u8>, pw: Seq<u8>, n: nat, f: Seq<Field>)
    ensures
        match parts(s, pw, n, f) {
            Form::Done { fields, filename, ctype, rest } => parts(s + x, pw, n, f) == (Form::Done { fields, filename, ctype, rest: rest + x }),
            Form::Bad => !(parts(s + x, pw, n, f) is Done),
            Form::More => true,
        },
        n >= 2 && parts(s, pw, 2, f) is Done ==> parts(s, pw, n, f) == parts(s, pw, 2, f),
    decreases s.len(),
{
    axiom_heads(s, x, n);
    axiom_heads(s, x, 2);
    if let Heads::Full(k, hs) = heads(s, n) {
        let t = s.subrange(k, s.len() as int);
        assert((s + x).subrange(k, (s + x).len() as int) =~= t + x);
        lemma_delim(t, pw);
        lemma_delim_ext(t, x, pw);
        if let Some(v) = named(hs, "Content-Disposition"@) {
            if let Some((name, None)) = disposition(v) {
                if let Some((j, u)) = delim(t, pw) {
                    let g = f.push((name, decode_utf8(value_of(t, j))));
                    lemma_parts_ext(u, x, pw, n, g);
                    axiom_heads(u, x, n);
                    if let Some((i, w)) = delim(t + x, pw) {
                        lemma_delim(t + x, pw);
                        if i == j {
                            assert(value_of(t + x, i) =~= value_of(t, j));
                        } else if u.len() == 0 {
                            if j >= 2 && valid_utf8(value_of(t + x, i)) {
                                assert(value_of(t + x, i)[j - 2] == 13);
                                lemma_cut(value_of(t + x, i), j - 2);
                                assert(value_of(t + x, i).subrange(0, j - 2) =~= value_of(t, j));
                            }
                            if j == 0 { assert(value_of(t, j) =~= Seq::<u8>::empty()); assert(valid_utf8(Seq::<u8>::empty())); }
                        }
                    }
                }
            }
        }
    }
}
proof fn lemma_form_ext(d: Seq<u8>, x: Seq<u8>, b: Seq<u8>, n: nat)
    ensures
        match form(d, b, n) {
            Form::Done { fields, filename, ctype, rest } => form(d + x, b, n) == (Form::Done { fields, filename, ctype, rest: rest + x }),
            Form::Bad => !(form(d + x, b, n) is Done),
            Form::More => true,
        },
        n >= 2 && form(d, b, 2) is Done ==> form(d, b, n) == form(d, b, 2),
{
    let pw = dashes() + b;
    let e = if is_prefix(crlf2(), d) { d.subrange(2, d.len() as int) } else { d };
    let c = if is_prefix(crlf2(), d + x) { (d + x).subrange(2, (d + x).len() as int) } else { d + x };
    lemma_crlf_at(e);
    lemma_crlf_at(c);
    if crlf_at(e) < e.len() && line_of(e).0 == pw { lemma_parts_ext(line_of(e).1, x, pw, n, Seq::empty()); }
    if d.len() >= 2 {
        assert((d + x).subrange(0, 2) =~= d.subrange(0, 2));
    } else if d.len() == 1 && is_prefix(crlf2(), d + x) {
        let q = (d + x).subrange(0, 2);
        assert(q[0] == d[0]);
        assert(d =~= crlf2().subrange(0, 1));
    }
    if d.len() == 0 { assert(crlf2().subrange(0, 0) =~= d); }
    if d.len() == 1 { assert(crlf_at(d) == 1) by { assert(crlf_at(Seq::<u8>::empty()) == 0); assert(d.subrange(1, 1) =~= Seq::<u8>::empty()); } }
    if d.len() >= 2 || !is_prefix(d, crlf2()) {
        assert(c =~= e + x);
        if crlf_at(e) < e.len() { lemma_line_ext(e, x); }
        else if crlf_at(c) < c.len() && line_of(c).0 == pw {
            let l = pw + crlf2();
            assert(c.subrange(0, l.len() as int) =~= l) by {
                let i = crlf_at(c);
                assert(c.subrange(0, i) == pw);
                assert forall|k: int| 0 <= k < l.len() implies c[k] == l[k] by { if k < i { assert(c.subrange(0, i)[k] == pw[k]); } }
            }
            if e.len() >= l.len() {
                assert(crlf(e, pw.len() as int));
            } else {
                assert(l.subrange(0, e.len() as int) =~= e) by { assert forall|k: int| 0 <= k < e.len() implies l[k] == e[k] by { assert(c.subrange(0, l.len() as int)[k] == c[k]); } }
            }
        }
    }
}
pub broadcast proof fn lemma_cat_left(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
proof fn lemma_form_all(b: Seq<u8>)
    ensures
        forall|d: Seq<u8>, x: Seq<u8>, n: nat| #![trigger form(d, b, n), d + x] n >= 2 ==> {
            &&& form(d, b, n) is Bad ==> !(form(d + x, b, 2) is Done)
            &&& forall|m: Multipart, br: bool| #[trigger] form_is(m, form(d, b, n), b, x, br) ==> form_is(m, form(d + x, b, n), b, Seq::empty(), br)
        },
        forall|d: Seq<u8>, n: nat| n >= 2 && #[trigger] form(d, b, n) is More ==> !(form(d, b, 2) is Done),
{
    assert forall|d: Seq<u8>, x: Seq<u8>, n: nat| #![trigger form(d, b, n), d + x] n >= 2 implies ({
            &&& form(d, b, n) is Bad ==> !(form(d + x, b, 2) is Done)
            &&& forall|m: Multipart, br: bool| #[trigger] form_is(m, form(d, b, n), b, x, br) ==> form_is(m, form(d + x, b, n), b, Seq::empty(), br)
        }) by {
        lemma_form_ext(d, x, b, n);
        lemma_form_ext(d + x, x, b, n);
        if let Form::Done { fields, filename, ctype, rest } = form(d, b, n) { assert((rest + x) + Seq::<u8>::empty() =~= rest + x); }
    }
    assert forall|d: Seq<u8>, n: nat| n >= 2 && #[trigger] form(d, b, n) is More implies !(form(d, b, 2) is Done) by { lemma_form_ext(d, d, b, n); }
}
//@ fn src/streams/multipart.rs transform_multipart
//@ sig pub fn transform_multipart(body_stream: Src, boundary: &[u8]) -> (r: IoResult<Multipart>)
//@ spec
    ensures match r {
        Ok(m) => exists|n: nat| n >= 2 && form_is(m, #[trigger] form(body_stream.data(), boundary@, n), boundary@, Seq::empty(), body_stream.broken()),
        Err(_) => body_stream.broken() || !(form(body_stream.data(), boundary@, 2) is Done),
    },
//@ hint start
    broadcast use catl::lemma_cat_empty;
    let ghost b0 = body_stream;
    proof { lemma_first_line(Seq::empty(), dashes() + boundary@, 2); assert(crlf2().subrange(0, 0) =~= Seq::<u8>::empty()); }
//@ hint before_loop0
    assert(buf@ =~= Seq::<u8>::empty());
    assert(pat@ =~= dashes() + boundary@ + crlf2());
//@ loop 0
    invariant
        b0.data() == buf@ + body.data(), b0.broken() == body.broken(), b0 == body_stream,
        pat@ == dashes() + boundary@ + crlf2(),
        !(form(buf@, boundary@, 2) is Done),
    decreases body.left(),
//@ hint loop0_start
    broadcast use lemma_cat_left;
    proof { lemma_form_all(boundary@); }
