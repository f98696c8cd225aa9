// ---------------------------------------------------------------- trusted: futures::AsyncRead, std::task, bytes
pub enum Poll<T> { Ready(T), Pending }
#[verifier::external_body]
pub struct Context { _p: () }
/// futures::AsyncRead: what is still to be read, and one read of at most the length of the buffer (nothing read means the end)
pub trait AsyncRead: Sized {
    spec fn rest(&self) -> Seq<u8>;
    fn poll_read(&mut self, cx: &mut Context, buf: &mut Vec<u8>) -> (r: Poll<IoResult<usize>>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            match r {
                Poll::Ready(Ok(n)) => n <= old(buf)@.len() && old(self).rest() == final(buf)@.subrange(0, n as int) + final(self).rest()
                    && (n == 0 && old(buf)@.len() > 0 ==> old(self).rest().len() == 0),
                Poll::Ready(Err(_)) => true,
                Poll::Pending => final(self).rest() == old(self).rest(),
            };
}
#[verifier::external_body]
pub fn bytes_of(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn vec_take(v: &mut Vec<u8>) -> (r: Vec<u8>) ensures r@ == old(v)@, final(v)@.len() == 0 { std::mem::take(v) }
pub open spec fn bounded(s: Seq<u8>, limit: Option<usize>) -> Seq<u8> { match limit { Some(n) => if n < s.len() { s.subrange(0, n as int) } else { s }, None => s } }
