// ---------------------------------------------------------------- `{}` in a format string
/// the text `{}` writes (trusted for numbers and strings)
pub trait VDisp { spec fn dv(&self) -> Seq<char>; }
impl VDisp for str { open spec fn dv(&self) -> Seq<char> { self@ } }
impl VDisp for String { open spec fn dv(&self) -> Seq<char> { self@ } }
impl<T: VDisp + ?Sized> VDisp for &T { open spec fn dv(&self) -> Seq<char> { (**self).dv() } }
/// decimal digits of a number
pub open spec fn dstr(n: nat) -> Seq<char>
    decreases n,
{ if n < 10 { seq![(48 + n) as char] } else { dstr(n / 10).push((48 + n % 10) as char) } }
impl VDisp for u32 { open spec fn dv(&self) -> Seq<char> { dstr(*self as nat) } }
impl VDisp for u64 { open spec fn dv(&self) -> Seq<char> { dstr(*self as nat) } }
impl VDisp for usize { open spec fn dv(&self) -> Seq<char> { dstr(*self as nat) } }
impl VDisp for i64 { open spec fn dv(&self) -> Seq<char> { if *self < 0 { seq!['-'] + dstr((-*self) as nat) } else { dstr(*self as nat) } } }
impl VDisp for bool { open spec fn dv(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } }
#[verifier::external_body]
pub fn vdisplay<T: VDisp + ?Sized>(out: &mut String, t: &T) ensures final(out)@ == old(out)@ + t.dv() { unimplemented!() }
