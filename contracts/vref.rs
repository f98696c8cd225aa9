// ---------------------------------------------------------------- AsRef (`.as_ref()` becomes `.vref()`)
pub trait VRef<O: View + ?Sized> {
    spec fn vr(&self) -> O::V;
    fn vref(&self) -> (r: &O) ensures r@ == self.vr();
}
impl VRef<str> for str { open spec fn vr(&self) -> Seq<char> { self@ } fn vref(&self) -> (r: &str) { self } }
impl VRef<str> for String { open spec fn vr(&self) -> Seq<char> { self@ } fn vref(&self) -> (r: &str) { self.as_str() } }
impl VRef<[u8]> for str { open spec fn vr(&self) -> Seq<u8> { encode_utf8(self@) } fn vref(&self) -> (r: &[u8]) { self.as_bytes() } }
impl VRef<[u8]> for String { open spec fn vr(&self) -> Seq<u8> { encode_utf8(self@) } fn vref(&self) -> (r: &[u8]) { self.as_bytes() } }
impl VRef<[u8]> for [u8] { open spec fn vr(&self) -> Seq<u8> { self@ } fn vref(&self) -> (r: &[u8]) { self } }
impl VRef<[u8]> for Vec<u8> { open spec fn vr(&self) -> Seq<u8> { self@ } fn vref(&self) -> (r: &[u8]) { self.as_slice() } }
impl<O: View + ?Sized, T: VRef<O> + ?Sized> VRef<O> for &T {
    open spec fn vr(&self) -> O::V { (**self).vr() }
    fn vref(&self) -> (r: &O) { (**self).vref() }
}
