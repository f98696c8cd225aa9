// ---------------------------------------------------------------- decimal numbers
/// value of a string of decimal digits
pub open spec fn dec(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { dec(s.drop_last()) * 10 + (s.last() as nat - '0' as nat) as nat }
}
/// what str::parse accepts for an unsigned integer type with the given maximum (trusted)
pub open spec fn parse_uint(s: Seq<char>, max: nat) -> Option<nat> {
    let d = if s.len() > 0 && s[0] == '+' { s.subrange(1, s.len() as int) } else { s };
    if d.len() > 0 && all_digits(d) && dec(d) <= max { Some(dec(d)) } else { None }
}
#[verifier::external_body]
pub struct IntError { _p: () }
pub trait VFromStr: Sized {
    spec fn vread(s: Seq<char>) -> Option<Self>;
    fn vfrom(s: &str) -> (r: Result<Self, IntError>)
        ensures match r { Ok(v) => Self::vread(s@) == Some(v), Err(_) => Self::vread(s@) is None };
}
pub open spec fn read_u64(s: Seq<char>) -> Option<u64> { match parse_uint(s, u64::MAX as nat) { Some(n) => Some(n as u64), None => None } }
pub open spec fn read_u32(s: Seq<char>) -> Option<u32> { match parse_uint(s, u32::MAX as nat) { Some(n) => Some(n as u32), None => None } }
pub open spec fn read_i32(s: Seq<char>) -> Option<i32> {
    if s.len() > 0 && s[0] == '-' {
        let d = s.subrange(1, s.len() as int);
        if d.len() > 0 && all_digits(d) && dec(d) <= 0x8000_0000 { Some((-(dec(d) as int)) as i32) } else { None }
    } else {
        match parse_uint(s, i32::MAX as nat) { Some(n) => Some(n as i32), None => None }
    }
}
impl VFromStr for u64 {
    open spec fn vread(s: Seq<char>) -> Option<u64> { read_u64(s) }
    #[verifier::external_body]
    fn vfrom(s: &str) -> (r: Result<u64, IntError>) { unimplemented!() }
}
impl VFromStr for u32 {
    open spec fn vread(s: Seq<char>) -> Option<u32> { read_u32(s) }
    #[verifier::external_body]
    fn vfrom(s: &str) -> (r: Result<u32, IntError>) { unimplemented!() }
}
impl VFromStr for i32 {
    open spec fn vread(s: Seq<char>) -> Option<i32> { read_i32(s) }
    #[verifier::external_body]
    fn vfrom(s: &str) -> (r: Result<i32, IntError>) { unimplemented!() }
}
pub fn vparse<T: VFromStr>(s: &str) -> (r: Result<T, IntError>)
    ensures match r { Ok(v) => T::vread(s@) == Some(v), Err(_) => T::vread(s@) is None },
{ T::vfrom(s) }
pub trait VStrNum: View<V = Seq<char>> {
    fn vparse<T: VFromStr>(&self) -> (r: Result<T, IntError>)
        ensures match r { Ok(v) => T::vread(self@) == Some(v), Err(_) => T::vread(self@) is None };
}
impl VStrNum for str {
    fn vparse<T: VFromStr>(&self) -> (r: Result<T, IntError>) { T::vfrom(self) }
}
/// the w digits of n (n < 10^w)
pub open spec fn digits(n: nat, w: nat) -> Seq<char>
    decreases w,
{
    if w == 0 { Seq::empty() } else { digits(n / 10, (w - 1) as nat).push((('0' as nat + n % 10) as u32) as char) }
}
pub open spec fn pow10(w: nat) -> nat
    decreases w,
{
    if w == 0 { 1 } else { 10 * pow10((w - 1) as nat) }
}
pub proof fn lemma_digits(s: Seq<char>)
    requires all_digits(s),
    ensures digits(dec(s), s.len()) == s, dec(s) < pow10(s.len()),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies '0' <= #[trigger] t[i] <= '9' by { assert(t[i] == s[i]); }
        lemma_digits(t);
        let d = (s.last() as nat - '0' as nat) as nat;
        assert('0' <= s.last() <= '9') by { assert(s.last() == s[s.len() - 1]); }
        assert(dec(s) == dec(t) * 10 + d);
        assert(dec(s) / 10 == dec(t) && dec(s) % 10 == d) by (nonlinear_arith) requires dec(s) == dec(t) * 10 + d, d < 10;
        assert((('0' as nat + d) as u32) as char == s.last());
        assert(t.push(s.last()) =~= s);
    } else {
        assert(s =~= Seq::empty());
    }
}
