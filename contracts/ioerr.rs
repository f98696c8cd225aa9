#[verifier::external_body]
pub struct IoError { _p: () }
pub type IoResult<T> = Result<T, IoError>;
pub trait VMin: Sized { spec fn mv(self) -> int; fn vmin(self, o: Self) -> (r: Self) ensures r == (if self.mv() <= o.mv() { self } else { o }); }
impl VMin for u64 { open spec fn mv(self) -> int { self as int } fn vmin(self, o: u64) -> (r: u64) { if self <= o { self } else { o } } }
impl VMin for usize { open spec fn mv(self) -> int { self as int } fn vmin(self, o: usize) -> (r: usize) { if self <= o { self } else { o } } }
