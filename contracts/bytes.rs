#[verifier::external_body]
pub struct Bytes { _p: () }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
