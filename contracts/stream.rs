// ---------------------------------------------------------------- trusted: bytes, memchr, a body as a stream of frames
#[verifier::external_body]
pub struct IoError { _p: () }
pub trait VExtend { fn vextend(&mut self, o: &[u8]); }
impl VExtend for Vec<u8> {
    #[verifier::external_body]
    fn vextend(&mut self, o: &[u8]) ensures final(self)@ == old(self)@ + o@ { self.extend_from_slice(o) }
}
impl Bytes {
    #[verifier::external_body]
    pub fn new() -> (r: Bytes) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: Bytes)
        requires n <= old(self)@.len(),
        ensures r@ == old(self)@.subrange(0, n as int), final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize)
        requires n <= old(self)@.len(),
        ensures final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with<const N: usize>(&self, p: &[u8; N]) -> (r: bool) ensures r == is_prefix(p@, self@) { unimplemented!() }
}
#[verifier::external_body]
pub fn memchr(b: u8, s: &[u8]) -> (r: Option<usize>)
    ensures match r { Some(i) => i == first_pos(s@, b) && i < s@.len() <= usize::MAX, None => first_pos(s@, b) == s@.len() }
{ unimplemented!() }
/// the body as it arrives: the bytes still to come, and whether reading them ends with an error
#[verifier::external_body]
pub struct Src { _p: () }
impl Src {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn broken(&self) -> bool;
    /// number of frames left
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<Bytes, IoError>>)
        ensures match r {
            None => old(self).data().len() == 0 && !old(self).broken() && final(self).data().len() == 0 && !final(self).broken(),
            Some(Err(_)) => old(self).data().len() == 0 && old(self).broken(),
            Some(Ok(b)) => old(self).data() == b@ + final(self).data() && final(self).broken() == old(self).broken() && final(self).left() < old(self).left(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vas_mut(&mut self) -> (r: &mut Src) ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
}
/// where the decoded payload goes
#[verifier::external_body]
pub struct Yielder { _p: () }
impl Yielder {
    pub uninterp spec fn out(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn yield_ok(&mut self, b: Bytes) ensures final(self).out() == old(self).out() + b@ { unimplemented!() }
}
