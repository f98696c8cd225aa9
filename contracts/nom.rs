// ---------------------------------------------------------------- nom (trusted: the complete parsers over &str)
#[verifier::external_body]
pub struct NomErr { _p: () }
pub fn vnom_error() -> (r: NomErr) { vnom_error_() }
#[verifier::external_body]
fn vnom_error_() -> NomErr { unimplemented!() }
pub type IRes<'a, O> = Result<(&'a str, O), NomErr>;

pub mod nomlem {
    use vstd::prelude::*;
pub open spec fn from(s: Seq<char>, k: int) -> Seq<char> { s.subrange(k, s.len() as int) }
pub open spec fn upto(s: Seq<char>, k: int) -> Seq<char> { s.subrange(0, k) }
/// r splits s after k characters
pub open spec fn split_at(s: Seq<char>, k: int, rest: Seq<char>, out: Seq<char>) -> bool {
    0 <= k <= s.len() && rest == from(s, k) && out == upto(s, k)
}
/// index of the first character satisfying p (the length when there is none)
pub open spec fn till(s: Seq<char>, p: spec_fn(char) -> bool) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else if p(s[0]) { 0 } else { 1 + till(from(s, 1), p) }
}
pub broadcast proof fn lemma_till(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures
        0 <= #[trigger] till(s, p) <= s.len(),
        forall|j: int| 0 <= j < till(s, p) ==> !p(#[trigger] s[j]),
        till(s, p) < s.len() ==> p(s[till(s, p)]),
    decreases s.len(),
{
    if s.len() > 0 && !p(s[0]) {
        let t = from(s, 1);
        lemma_till(t, p);
        assert forall|j: int| 0 <= j < till(s, p) implies !p(#[trigger] s[j]) by { if j > 0 { assert(s[j] == t[j - 1]); } }
    }
}
/// what the predicate closure f decides: the first k characters are rejected, the next one (if any) accepted
pub open spec fn stops_at<F: Fn(char) -> bool>(s: Seq<char>, f: F, k: int, hit: bool) -> bool {
    &&& 0 <= k <= s.len()
    &&& forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] s[j],), !hit)
    &&& k < s.len() ==> f.ensures((s[k],), hit)
}
    pub broadcast proof fn lemma_from_from(s: Seq<char>, a: int, b: int)
        requires 0 <= a, 0 <= b, a + b <= s.len(),
        ensures #[trigger] from(from(s, a), b) == from(s, a + b),
    { assert(from(from(s, a), b) =~= from(s, a + b)); }
    pub broadcast proof fn lemma_from_one(s: Seq<char>, a: int)
        requires 0 <= a < s.len(),
        ensures #[trigger] from(from(s, a), 1) == from(s, a + 1),
    { assert(from(from(s, a), 1) =~= from(s, a + 1)); }
    pub broadcast proof fn lemma_upto_from(s: Seq<char>, a: int, b: int)
        requires 0 <= a, 0 <= b, a + b <= s.len(),
        ensures #[trigger] upto(from(s, a), b) == s.subrange(a, a + b),
    { assert(upto(from(s, a), b) =~= s.subrange(a, a + b)); }
    pub broadcast proof fn lemma_prefix_chars(p: Seq<char>, s: Seq<char>)
        ensures #[trigger] super::bc::is_prefix(p, s) == (p.len() <= s.len() && forall|j: int| 0 <= j < p.len() ==> #[trigger] p[j] == s[j]), super::bc::is_prefix(p, s) && p.len() > 0 ==> s[0] == p[0],
    {
        let q = s.subrange(0, p.len() as int);
        if super::bc::is_prefix(p, s) { assert forall|j: int| 0 <= j < p.len() implies #[trigger] p[j] == s[j] by { assert(q[j] == s[j]); assert(q =~= p); } }
    }
    pub broadcast proof fn lemma_stops<F: Fn(char) -> bool>(s: Seq<char>, f: F, k: int, hit: bool, p: spec_fn(char) -> bool)
        requires
            #[trigger] stops_at(s, f, k, hit),
            forall|c: char, b: bool| #[trigger] f.ensures((c,), b) ==> p(c) == (b == hit),
        ensures #[trigger] till(s, p) == k,
    {
        lemma_till(s, p);
        let t = till(s, p);
        if t < k { assert(f.ensures((s[t],), !hit)); }
        if k < t { assert(p(s[k])); }
    }
}
pub use nomlem::*;
broadcast use nomlem::lemma_stops, nomlem::lemma_till, nomlem::lemma_prefix_chars, nomlem::lemma_from_one;

#[verifier::external_body]
pub fn vnom_take<'a>(i: &'a str, n: usize) -> (r: IRes<'a, &'a str>)
    ensures match r {
        Ok((rest, o)) => i@.len() >= n && split_at(i@, n as int, rest@, o@),
        Err(_) => i@.len() < n,
    },
{ unimplemented!() }
#[verifier::external_body]
pub fn vnom_tag<'a>(i: &'a str, t: &str) -> (r: IRes<'a, &'a str>)
    ensures match r {
        Ok((rest, o)) => is_prefix(t@, i@) && split_at(i@, t@.len() as int, rest@, o@),
        Err(_) => !is_prefix(t@, i@),
    },
{ unimplemented!() }
#[verifier::external_body]
pub fn vnom_take_till<'a, F: Fn(char) -> bool>(i: &'a str, f: F) -> (r: IRes<'a, &'a str>)
    requires forall|c: char| f.requires((c,)),
    ensures r is Ok, split_at(i@, r->Ok_0.1@.len() as int, r->Ok_0.0@, r->Ok_0.1@), stops_at(i@, f, r->Ok_0.1@.len() as int, true),
{ unimplemented!() }
#[verifier::external_body]
pub fn vnom_take_till1<'a, F: Fn(char) -> bool>(i: &'a str, f: F) -> (r: IRes<'a, &'a str>)
    requires forall|c: char| f.requires((c,)),
    ensures
        r is Ok ==> split_at(i@, r->Ok_0.1@.len() as int, r->Ok_0.0@, r->Ok_0.1@) && stops_at(i@, f, r->Ok_0.1@.len() as int, true) && r->Ok_0.1@.len() > 0,
        r is Err ==> stops_at(i@, f, 0, true),
{ unimplemented!() }
#[verifier::external_body]
pub fn vnom_take_while<'a, F: Fn(char) -> bool>(i: &'a str, f: F) -> (r: IRes<'a, &'a str>)
    requires forall|c: char| f.requires((c,)),
    ensures r is Ok, split_at(i@, r->Ok_0.1@.len() as int, r->Ok_0.0@, r->Ok_0.1@), stops_at(i@, f, r->Ok_0.1@.len() as int, false),
{ unimplemented!() }
#[verifier::external_body]
pub fn vnom_take_while1<'a, F: Fn(char) -> bool>(i: &'a str, f: F) -> (r: IRes<'a, &'a str>)
    requires forall|c: char| f.requires((c,)),
    ensures
        r is Ok ==> split_at(i@, r->Ok_0.1@.len() as int, r->Ok_0.0@, r->Ok_0.1@) && stops_at(i@, f, r->Ok_0.1@.len() as int, false) && r->Ok_0.1@.len() > 0,
        r is Err ==> stops_at(i@, f, 0, false),
{ unimplemented!() }
pub open spec fn digit_char(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn not_digit() -> spec_fn(char) -> bool { |c: char| !digit_char(c) }
/// space, tab, line feed, carriage return
pub open spec fn multispace(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
pub open spec fn not_multispace() -> spec_fn(char) -> bool { |c: char| !multispace(c) }
#[verifier::external_body]
pub fn vnom_digit1<'a>(i: &'a str) -> (r: IRes<'a, &'a str>)
    ensures
        r is Ok ==> split_at(i@, till(i@, not_digit()), r->Ok_0.0@, r->Ok_0.1@) && r->Ok_0.1@.len() > 0,
        r is Err ==> till(i@, not_digit()) == 0,
{ unimplemented!() }
#[verifier::external_body]
pub fn vnom_digit0<'a>(i: &'a str) -> (r: IRes<'a, &'a str>)
    ensures r is Ok, split_at(i@, till(i@, not_digit()), r->Ok_0.0@, r->Ok_0.1@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vnom_multispace0<'a>(i: &'a str) -> (r: IRes<'a, &'a str>)
    ensures r is Ok, split_at(i@, till(i@, not_multispace()), r->Ok_0.0@, r->Ok_0.1@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vnom_multispace1<'a>(i: &'a str) -> (r: IRes<'a, &'a str>)
    ensures
        r is Ok ==> split_at(i@, till(i@, not_multispace()), r->Ok_0.0@, r->Ok_0.1@) && r->Ok_0.1@.len() > 0,
        r is Err ==> till(i@, not_multispace()) == 0,
{ unimplemented!() }
#[verifier::external_body]
pub fn vnom_at_end(i: &str) -> (r: bool)
    ensures r == (i@.len() == 0),
{ unimplemented!() }
