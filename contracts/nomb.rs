// ---------------------------------------------------------------- nom (trusted: the complete parsers over &[u8])
pub type IResB<'a, O> = Result<(&'a [u8], O), NomErr>;
pub mod nombl {
    use vstd::prelude::*;
    pub open spec fn bfrom(s: Seq<u8>, k: int) -> Seq<u8> { s.subrange(k, s.len() as int) }
    pub open spec fn bsplit(s: Seq<u8>, k: int, rest: Seq<u8>, out: Seq<u8>) -> bool { 0 <= k <= s.len() && rest == bfrom(s, k) && out == s.subrange(0, k) }
    pub open spec fn bstops<F: Fn(u8) -> bool>(s: Seq<u8>, f: F, k: int, hit: bool) -> bool {
        &&& 0 <= k <= s.len()
        &&& forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] s[j],), !hit)
        &&& k < s.len() ==> f.ensures((s[k],), hit)
    }
    pub broadcast proof fn lemma_bfrom(s: Seq<u8>, a: int, b: int)
        requires 0 <= a, 0 <= b, a + b <= s.len(),
        ensures #[trigger] bfrom(bfrom(s, a), b) == bfrom(s, a + b),
    { assert(bfrom(bfrom(s, a), b) =~= bfrom(s, a + b)); }
    pub broadcast proof fn lemma_bstops<F: Fn(u8) -> bool>(s: Seq<u8>, f: F, k: int, x: u8)
        requires
            #[trigger] bstops(s, f, k, true),
            forall|c: u8, b: bool| #[trigger] f.ensures((c,), b) ==> b == (c == x),
        ensures #[trigger] super::bc::first_pos(s, x) == k,
    {
        super::bc::lemma_first_pos(s, x);
        let t = super::bc::first_pos(s, x);
        if t < k { assert(f.ensures((s[t],), false)); }
        if k < t { assert(f.ensures((s[k],), true)); }
    }
    pub broadcast proof fn lemma_first_pos_cat(a: Seq<u8>, b: Seq<u8>, x: u8)
        ensures #[trigger] super::bc::first_pos(a + b, x) == if super::bc::first_pos(a, x) < a.len() { super::bc::first_pos(a, x) } else { a.len() + super::bc::first_pos(b, x) },
    {
        let s = a + b;
        super::bc::lemma_first_pos(s, x); super::bc::lemma_first_pos(a, x); super::bc::lemma_first_pos(b, x);
        let (t, i, j) = (super::bc::first_pos(s, x), super::bc::first_pos(a, x), super::bc::first_pos(b, x));
        if i < a.len() {
            assert(s[i] == x);
            if t < i { assert(a[t] == s[t]); }
        } else {
            if t < a.len() { assert(a[t] == s[t]); }
            if j < b.len() { assert(s[a.len() + j] == b[j]); }
            if t < s.len() && t >= a.len() { assert(b[t - a.len()] == s[t]); }
        }
    }
    pub open spec fn hexdigit(b: u8) -> bool { 48 <= b <= 57 || 65 <= b <= 70 || 97 <= b <= 102 }
    pub open spec fn hexdigit_val(b: u8) -> nat { if b <= 57 { (b - 48) as nat } else if b <= 70 { (b - 55) as nat } else { (b - 87) as nat } }
    pub open spec fn hexval(s: Seq<u8>) -> nat
        decreases s.len(),
    { if s.len() == 0 { 0 } else { hexval(s.drop_last()) * 16 + hexdigit_val(s.last()) } }
    /// length of the leading run of hexadecimal digits
    pub open spec fn hexrun(s: Seq<u8>) -> int
        decreases s.len(),
    { if s.len() > 0 && hexdigit(s[0]) { 1 + hexrun(s.subrange(1, s.len() as int)) } else { 0 } }
    /// nom's hex_u32 reads at most 8 digits
    pub open spec fn hex32_len(s: Seq<u8>) -> int { if hexrun(s) > 8 { 8 } else { hexrun(s) } }
}
pub use nombl::*;
broadcast use nombl::lemma_bstops;
broadcast use nombl::lemma_first_pos_cat;
#[verifier::external_body]
pub fn vnomb_take<'a>(i: &'a [u8], n: usize) -> (r: IResB<'a, &'a [u8]>)
    ensures match r { Ok((rest, o)) => i@.len() >= n && bsplit(i@, n as int, rest@, o@), Err(_) => i@.len() < n },
{ unimplemented!() }
#[verifier::external_body]
pub fn vnomb_tag<'a, const N: usize>(i: &'a [u8], t: &[u8; N]) -> (r: IResB<'a, &'a [u8]>)
    ensures match r { Ok((rest, o)) => is_prefix(t@, i@) && bsplit(i@, t@.len() as int, rest@, o@), Err(_) => !is_prefix(t@, i@) },
{ unimplemented!() }
#[verifier::external_body]
pub fn vnomb_take_till1<'a, F: Fn(u8) -> bool>(i: &'a [u8], f: F) -> (r: IResB<'a, &'a [u8]>)
    requires forall|c: u8| f.requires((c,)),
    ensures
        r is Ok ==> bsplit(i@, r->Ok_0.1@.len() as int, r->Ok_0.0@, r->Ok_0.1@) && bstops(i@, f, r->Ok_0.1@.len() as int, true) && r->Ok_0.1@.len() > 0,
        r is Err ==> bstops(i@, f, 0, true),
{ unimplemented!() }
#[verifier::external_body]
pub fn vnomb_at_end(i: &[u8]) -> (r: bool) ensures r == (i@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn vnomb_hex_u32<'a>(i: &'a [u8]) -> (r: IResB<'a, u32>)
    ensures match r {
        Ok((rest, n)) => hexrun(i@) > 0 && rest@ == bfrom(i@, hex32_len(i@)) && n == hexval(i@.subrange(0, hex32_len(i@))),
        Err(_) => hexrun(i@) == 0,
    },
{ unimplemented!() }
