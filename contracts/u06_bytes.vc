//@ include base.rs
//@ include bytes.rs
//@ include ioerr.rs
//@ include pollm.rs
//@ method min vmin
//@ rewrite io :: Result < ==> IoResult <
//@ rewrite Bytes :: from ==> bytes_of
//@ rewrite mem :: take ==> vec_take
//@ item src/data_structures/bytes_stream.rs BytesStream
//@ text
/// what pin_project! generates
pub struct BytesStreamProj<'a, R> { pub reader: &'a mut R, pub buf_size: &'a mut usize, pub buf: &'a mut Vec<u8>, pub limit: &'a mut Option<usize> }
impl<R: AsyncRead> BytesStream<R> {
    /// the bytes the stream still has to yield
    pub closed spec fn v(&self) -> Seq<u8> { bounded(self.reader.rest(), self.limit) }
    pub closed spec fn inv(&self) -> bool { self.buf_size > 0 }
    fn project(&mut self) -> (r: BytesStreamProj<'_, R>)
        ensures
            *r.reader == old(self).reader, *final(r.reader) == final(self).reader,
            *r.buf_size == old(self).buf_size, *final(r.buf_size) == final(self).buf_size,
            *r.buf == old(self).buf, *final(r.buf) == final(self).buf,
            *r.limit == old(self).limit, *final(r.limit) == final(self).limit,
    { BytesStreamProj { reader: &mut self.reader, buf_size: &mut self.buf_size, buf: &mut self.buf, limit: &mut self.limit } }
//@ fn src/data_structures/bytes_stream.rs BytesStream::new
//@ sig pub fn new(reader: R, buf_size: usize, limit: Option<usize>) -> (r: Self)
//@ spec
    requires buf_size > 0,
    ensures r.inv(), r.v() == bounded(reader.rest(), limit),
//@ fn src/data_structures/bytes_stream.rs BytesStream=Stream::poll_next
//@ sig pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<IoResult<Bytes>>>)
//@ spec
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match r {
            Poll::Ready(Some(Ok(b))) => b@.len() > 0 && old(self).v() == b@ + final(self).v(),
            Poll::Ready(None) => old(self).v().len() == 0 && final(self).v().len() == 0,
            Poll::Ready(Some(Err(_))) => true,
            Poll::Pending => final(self).v() == old(self).v(),
        },
//@ hint start
        let ghost rest0 = self.reader.rest();
        proof {
            assert forall|n: int, a: Seq<u8>, b: Seq<u8>, m: usize| #![trigger bounded(a + b, Some(m)), bounded(b, Some((m - n) as usize))]
                n == a.len() && n <= m implies bounded(a + b, Some(m)) =~= a + bounded(b, Some((m - n) as usize)) by {}
            assert forall|a: Seq<u8>, b: Seq<u8>| a.len() == 0 implies #[trigger] (a + b) =~= b by {}
        }
//@ text
}
