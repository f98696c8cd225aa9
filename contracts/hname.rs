/// a header name (hyper's AsHeaderName: HeaderName, &str)
#[verifier::external_body]
pub struct HName { _p: () }
impl View for HName { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl HName {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
/// what a header is looked up by
pub trait AsHName: Sized { spec fn hv(&self) -> Seq<char>; fn as_str(&self) -> (r: &str) ensures r@ == self.hv(); }
impl AsHName for HName {
    open spec fn hv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn as_str(&self) -> (r: &str) { unimplemented!() }
}
impl AsHName for &HName {
    open spec fn hv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn as_str(&self) -> (r: &str) { unimplemented!() }
}
impl AsHName for &str { open spec fn hv(&self) -> Seq<char> { self@ } fn as_str(&self) -> (r: &str) { *self } }
