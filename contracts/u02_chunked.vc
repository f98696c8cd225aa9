//@ include base.rs
//@ import u09_ordered.vc
//@ import u10_headers.vc
//@ import u01_sigv4.vc
//@ include nomb.rs
//@ include seqcat.rs
//@ include stream.rs
//@ nom bytes
//@ method as_mut vas_mut
//@ method as_ref vref
//@ method extend_from_slice vextend
//@ method into vinto_box_str
//@ rewrite signature_v4 :: ==>
//@ rewrite hyper :: body :: ==>
//@ rewrite io :: Error ==> IoError
//@ item src/streams/aws_chunked_stream.rs SignatureCtx
//@ item src/streams/aws_chunked_stream.rs ChunkMeta
//@ item src/streams/aws_chunked_stream.rs AwsChunkedStreamError
//@ text
pub struct TryFromIntError;
pub fn vtry_into_usize(x: u32) -> (r: Result<usize, TryFromIntError>) ensures r == Ok::<usize, TryFromIntError>(x as usize) { Ok(x as usize) }
pub fn vinto_box_str(s: String) -> (r: Box<str>) ensures r@ == s@ { vinto_box_str_(s) }
#[verifier::external_body]
fn vinto_box_str_(s: String) -> (r: Box<str>) ensures r@ == s@ { s.into() }
pub trait VBoxStr: Sized { spec fn bsv(&self) -> Seq<char>; fn vinto_box_str(self) -> (r: Box<str>) ensures r@ == self.bsv(); }
impl VBoxStr for String { open spec fn bsv(&self) -> Seq<char> { self@ } fn vinto_box_str(self) -> (r: Box<str>) { vinto_box_str(self) } }
// ---------------------------------------------------------------- the format (AWS: chunk-size;chunk-signature=SIG CRLF DATA CRLF, up to an empty chunk)
pub open spec fn sep() -> Seq<u8> { seq![59u8, 99, 104, 117, 110, 107, 45, 115, 105, 103, 110, 97, 116, 117, 114, 101, 61] }
/// size and signature in a chunk's first line
pub open spec fn meta_of(l: Seq<u8>) -> Option<(nat, Seq<u8>)> {
    let k = first_pos(l, 59u8);
    if k > 0 && l.len() == k + 83 && l.subrange(k, k + 17) == sep() && l[k + 81] == 13 && l[k + 82] == 10 && hexrun(l.subrange(0, k)) > 0 {
        Some((hexval(l.subrange(0, hex32_len(l.subrange(0, k)))), l.subrange(k + 17, k + 81)))
    } else { None }
}
pub enum End { Done, Io, Mismatch, Format, Incomplete }
pub open spec fn end_of(e: AwsChunkedStreamError) -> End {
    match e { AwsChunkedStreamError::Io(_) => End::Io, AwsChunkedStreamError::SignatureMismatch => End::Mismatch, AwsChunkedStreamError::FormatError => End::Format, AwsChunkedStreamError::Incomplete => End::Incomplete }
}
/// the body ends too early
pub open spec fn cut(broken: bool) -> End { if broken { End::Io } else { End::Incomplete } }
/// what is wrong with size data bytes and a CRLF at the start of e, if anything
pub open spec fn data_end(e: Seq<u8>, size: nat, broken: bool) -> Option<End> {
    if e.len() <= size { Some(cut(broken)) }
    else if e[size as int] != 13 { Some(End::Format) }
    else if e.len() == size + 1 { Some(cut(broken)) }
    else if e[size as int + 1] != 10 { Some(End::Format) }
    else { None }
}
/// the signature of a chunk whose predecessor has signature prev
pub open spec fn chunk_sig(t: AmzDate, region: Seq<char>, secret: Seq<char>, prev: Seq<char>, data: Seq<u8>) -> Seq<char> {
    signature(chunk_string_to_sign(t, region, prev, data), secret, t, region)
}
/// C03: what is handed on of the bytes d, and how the stream ends
pub open spec fn decoded(t: AmzDate, region: Seq<char>, secret: Seq<char>, prev: Seq<char>, d: Seq<u8>, broken: bool) -> (Seq<u8>, End)
    decreases d.len(), when d.len() >= 0 via decoded_terminates
{
    let i = first_pos(d, 10u8);
    if i >= d.len() { (Seq::empty(), cut(broken)) } else {
        match meta_of(d.subrange(0, i + 1)) {
            None => (Seq::empty(), End::Format),
            Some((size, sig)) => {
                let e = d.subrange(i + 1, d.len() as int);
                match data_end(e, size, broken) {
                    Some(x) => (Seq::empty(), x),
                    None => {
                        let p = e.subrange(0, size as int);
                        let s = chunk_sig(t, region, secret, prev, p);
                        if encode_utf8(s) != sig { (Seq::empty(), End::Mismatch) }
                        else if size == 0 { (Seq::empty(), End::Done) }
                        else {
                            let r = decoded(t, region, secret, s, e.subrange(size as int + 2, e.len() as int), broken);
                            (p + r.0, r.1)
                        }
                    }
                }
            }
        }
    }
}
#[via_fn]
proof fn decoded_terminates(t: AmzDate, region: Seq<char>, secret: Seq<char>, prev: Seq<char>, d: Seq<u8>, broken: bool) { lemma_first_pos(d, 10u8); }
pub broadcast proof fn lemma_first_pos_bounds(s: Seq<u8>, x: u8) ensures 0 <= #[trigger] first_pos(s, x) <= s.len() { lemma_first_pos(s, x); }
pub open spec fn obytes(b: Option<Bytes>) -> Seq<u8> { b->Some_0@ }
pub proof fn lemma_decoded(t: AmzDate, region: Seq<char>, secret: Seq<char>, prev: Seq<char>, d: Seq<u8>, broken: bool)
    ensures ({
        let i = first_pos(d, 10u8);
        &&& 0 <= i <= d.len()
        &&& decoded(t, region, secret, prev, d, broken) == if i >= d.len() { (Seq::empty(), cut(broken)) } else {
            match meta_of(d.subrange(0, i + 1)) {
                None => (Seq::empty(), End::Format),
                Some((size, sig)) => {
                    let e = d.subrange(i + 1, d.len() as int);
                    match data_end(e, size, broken) {
                        Some(x) => (Seq::empty(), x),
                        None => {
                            let p = e.subrange(0, size as int);
                            let s = chunk_sig(t, region, secret, prev, p);
                            if encode_utf8(s) != sig { (Seq::empty(), End::Mismatch) }
                            else if size == 0 { (Seq::empty(), End::Done) }
                            else {
                                let r = decoded(t, region, secret, s, e.subrange(size as int + 2, e.len() as int), broken);
                                (p + r.0, r.1)
                            }
                        }
                    }
                }
            }
        }
    }),
{ lemma_first_pos(d, 10u8); reveal_with_fuel(decoded, 2); }
pub open spec fn crlf() -> Seq<u8> { seq![13u8, 10] }
pub proof fn lemma_meta(l: Seq<u8>)
    ensures
        forall|k: int| #![trigger bfrom(l, k)] 0 <= k <= l.len() ==> is_prefix(sep(), bfrom(l, k)) == (l.len() >= k + 17 && l.subrange(k, k + 17) == sep()),
        forall|k: int| #![trigger bfrom(l, k)] 0 <= k <= l.len() ==> is_prefix(crlf(), bfrom(l, k)) == (l.len() >= k + 2 && l[k] == 13 && l[k + 1] == 10),
{
    assert forall|k: int| #![trigger bfrom(l, k)] 0 <= k <= l.len() implies is_prefix(sep(), bfrom(l, k)) == (l.len() >= k + 17 && l.subrange(k, k + 17) == sep()) by {
        if l.len() >= k + 17 { assert(bfrom(l, k).subrange(0, 17) =~= l.subrange(k, k + 17)); }
    }
    assert forall|k: int| #![trigger bfrom(l, k)] 0 <= k <= l.len() implies is_prefix(crlf(), bfrom(l, k)) == (l.len() >= k + 2 && l[k] == 13 && l[k + 1] == 10) by {
        if l.len() >= k + 2 {
            let q = bfrom(l, k).subrange(0, 2);
            assert(q[0] == l[k] && q[1] == l[k + 1]);
            if q =~= crlf() { assert(crlf()[0] == 13 && crlf()[1] == 10); }
        }
    }
}
pub proof fn lemma_hexrun()
    ensures forall|s: Seq<u8>| 0 <= #[trigger] hexrun(s) <= s.len(),
{ assert forall|s: Seq<u8>| 0 <= #[trigger] hexrun(s) <= s.len() by { lemma_hexrun_(s); } }
proof fn lemma_hexrun_(s: Seq<u8>) ensures 0 <= hexrun(s) <= s.len() decreases s.len()
{ if s.len() > 0 && hexdigit(s[0]) { lemma_hexrun_(s.subrange(1, s.len() as int)); } }
//@ fn src/streams/aws_chunked_stream.rs parse_chunk_meta
//@ alias TryInto::try_into vtry_into_usize
//@ question * same
//@ sig pub fn parse_chunk_meta<'a>(input: &'a [u8]) -> (r: IResB<'a, ChunkMeta<'a>>)
//@ hint start
    broadcast use {catl::lemma_sub_sub, nombl::lemma_bfrom};
    proof { lemma_first_pos(input@, 59u8); lemma_meta(input@); lemma_hexrun(); assert(crlf().len() == 2); assert(sep().len() == 17); }
//@ spec
    ensures match r {
        Ok((_, m)) => meta_of(input@) == Some((m.size as nat, m.signature@)),
        Err(_) => meta_of(input@) is None,
    },
//@ fn src/streams/aws_chunked_stream.rs check_signature
//@ comb then option
//@ sig pub fn check_signature(ctx: &SignatureCtx, expected_signature: &[u8], chunk_data: &[Bytes]) -> (r: Option<Box<str>>)
//@ spec
    requires ctx.amz_date.inv(),
    ensures ({
        let s = chunk_sig(ctx.amz_date, ctx.region@, ctx.secret_key@, ctx.prev_signature@, concat(chunk_data@));
        match r { Some(x) => x@ == s && encode_utf8(s) == expected_signature@, None => encode_utf8(s) != expected_signature@ }
    }),
//@ fn src/streams/aws_chunked_stream.rs AwsChunkedStream::read_meta_bytes#push_meta_bytes
//@ sig pub fn push_meta_bytes(bytes: Bytes, buf: &mut Vec<u8>) -> (r: Option<Bytes>)
//@ hint start
    proof { lemma_first_pos(bytes@, 10u8); }
//@ spec
    ensures ({
        let i = first_pos(bytes@, 10u8);
        match r {
            Some(rest) => i < bytes@.len() && final(buf)@ == old(buf)@ + bytes@.subrange(0, i + 1) && rest@ == bytes@.subrange(i + 1, bytes@.len() as int),
            None => i == bytes@.len() && final(buf)@ == old(buf)@ + bytes@,
        }
    }),
//@ fn src/streams/aws_chunked_stream.rs AwsChunkedStream::read_meta_bytes
//@ lift push_meta_bytes push_meta_bytes buf
//@ question * option
//@ sig pub fn read_meta_bytes(body: &mut Src, prev_bytes: Bytes, buf: &mut Vec<u8>) -> (r: Option<Result<Bytes, IoError>>)
//@ spec
    ensures ({
        let d = prev_bytes@ + old(body).data();
        let i = first_pos(d, 10u8);
        match r {
            Some(Ok(rest)) => i < d.len() && final(buf)@ == d.subrange(0, i + 1) && rest@ + final(body).data() == d.subrange(i + 1, d.len() as int) && final(body).broken() == old(body).broken(),
            Some(Err(_)) => i == d.len() && old(body).broken(),
            None => i == d.len() && !old(body).broken(),
        }
    }),
//@ loop 0
    invariant
        body.broken() == old_body.broken(),
        first_pos(buf@, 10u8) == buf@.len(),
        buf@ + body.data() == prev_bytes@ + old_body.data(),
    decreases body.left(),
//@ attr #[verifier::loop_isolation(false)]
//@ hint start
    broadcast use {catl::lemma_cat_take, catl::lemma_cat_drop, catl::lemma_cat_assoc, catl::lemma_cat_empty, catl::lemma_sub_all};
    let ghost old_body = *body;
    broadcast use lemma_first_pos_bounds;
//@ text
pub broadcast proof fn lemma_concat_push(c: Seq<Bytes>, b: Bytes) ensures #[trigger] concat(c.push(b)) == concat(c) + b@ { assert(c.push(b).drop_last() =~= c); }
pub proof fn lemma_concat_take(c: Seq<Bytes>)
    ensures forall|k: int| 0 <= k < c.len() ==> concat(c.subrange(0, k + 1)) == #[trigger] concat(c.subrange(0, k)) + c[k]@,
{
    assert forall|k: int| 0 <= k < c.len() implies concat(c.subrange(0, k + 1)) == #[trigger] concat(c.subrange(0, k)) + c[k]@ by { assert(c.subrange(0, k + 1).drop_last() =~= c.subrange(0, k)); }
}
pub proof fn lemma_concat_empty() ensures forall|c: Seq<Bytes>| c.len() == 0 ==> #[trigger] concat(c) == Seq::<u8>::empty() {}
//@ fn src/streams/aws_chunked_stream.rs AwsChunkedStream::read_data#push_data_bytes
//@ deref data_size bytes_buffer
//@ hint start
    broadcast use {lemma_concat_push, catl::lemma_cat_empty, catl::lemma_sub_all};
//@ sig pub fn push_data_bytes(bytes: Bytes, data_size: &mut usize, bytes_buffer: &mut Vec<Bytes>) -> (r: Option<Bytes>)
//@ spec
    ensures ({
        let n = *old(data_size) as int;
        match r {
            Some(rest) => n <= bytes@.len() && *final(data_size) == 0 && concat(final(bytes_buffer)@) == concat(old(bytes_buffer)@) + bytes@.subrange(0, n) && rest@ == bytes@.subrange(n, bytes@.len() as int),
            None => n > bytes@.len() && *final(data_size) == n - bytes@.len() && concat(final(bytes_buffer)@) == concat(old(bytes_buffer)@) + bytes@,
        }
    }),
//@ fn src/streams/aws_chunked_stream.rs AwsChunkedStream::read_data
//@ lift push_data_bytes push_data_bytes &mut data_size, &mut bytes_buffer
//@ question * option
//@ sig pub fn read_data(body: &mut Src, prev_bytes: Bytes, size: usize) -> (r: Option<Result<(Vec<Bytes>, Bytes), AwsChunkedStreamError>>)
//@ spec
    ensures ({
        let e = prev_bytes@ + old(body).data();
        let end = data_end(e, size as nat, old(body).broken());
        match r {
            Some(Ok((data, rest))) => end is None && concat(data@) == e.subrange(0, size as int) && rest@ + final(body).data() == e.subrange(size + 2, e.len() as int) && final(body).broken() == old(body).broken(),
            Some(Err(x)) => end == Some(end_of(x)),
            None => end == Some(End::Incomplete),
        }
    }),
//@ loop 0
    invariant_except_break
        bytes_buffer@.len() == 0,
        data_size == old_size,
        body.broken() == old_body.broken(),
        prev_bytes@ + body.data() == e,
        brk0 is None,
    invariant
        e == prev_bytes@ + old(body).data(), old_body == *old(body), old_size == size,
    ensures
        body.broken() == old_body.broken(),
        brk0 is Some,
        old_size <= e.len(),
        concat(bytes_buffer@) == e.subrange(0, old_size as int),
        obytes(brk0) + body.data() == e.subrange(old_size as int, e.len() as int),
    decreases 0int,
//@ loop 1
    invariant
        e == prev_bytes@ + old(body).data(), old_body == *old(body), old_size == size,
        body.broken() == old_body.broken(),
        concat(bytes_buffer@).len() + data_size == old_size,
        concat(bytes_buffer@) + body.data() == e,
        brk0 is None,
    decreases body.left(),
//@ hint loop1_start
    broadcast use {catl::lemma_cat_take, catl::lemma_cat_drop, catl::lemma_cat_assoc, catl::lemma_cat_empty};
//@ hint after_loop0
    let ghost tail = e.subrange(old_size as int, e.len() as int);
    assert(tail.len() > 0 ==> tail[0] == e[old_size as int]);
    assert(tail.len() > 1 ==> tail[1] == e[old_size + 1]);
    let ghost rb = obytes(brk0);
    assert(rb.len() >= 2 ==> tail[0] == rb[0] && tail[1] == rb[1]);
    assert(rb.len() >= 2 ==> rb.subrange(0, 2)[0] == rb[0] && rb.subrange(0, 2)[1] == rb[1]);
    assert(rb.len() >= 2 ==> rb.subrange(2, rb.len() as int) + body.data() =~= tail.subrange(2, tail.len() as int));
    assert(tail.len() >= 2 ==> tail.subrange(2, tail.len() as int) =~= e.subrange(old_size + 2, e.len() as int));
//@ loop 2
    invariant
        e == prev_bytes@ + old(body).data(), old_body == *old(body), old_size == size,
        tail == e.subrange(old_size as int, e.len() as int), old_size <= e.len(),
        it2.v().len() == 2, it2.v()[0] == 13u8, it2.v()[1] == 10u8,
        0 <= it2.i() <= 2,
        body.broken() == old_body.broken(),
        tail.len() >= it2.i(),
        remaining_bytes@ + body.data() == tail.subrange(it2.i(), tail.len() as int),
        it2.i() >= 1 ==> tail[0] == 13u8,
        it2.i() >= 2 ==> tail[1] == 10u8,
    ensures it2.i() == 2,
    decreases 2 - it2.i(),
//@ hint loop3_start
    assert(tail.len() > 0 ==> tail[0] == e[old_size as int]);
    assert(tail.len() > 1 ==> tail[1] == e[old_size + 1]);
    let ghost w = remaining_bytes@ + body.data();
    assert(w.len() > 0 ==> w[0] == tail[it2.i() - 1]);
    assert(remaining_bytes@.len() > 0 ==> w[0] == remaining_bytes@[0]);
    assert(w.len() > 0 ==> w.subrange(1, w.len() as int) == tail.subrange(it2.i(), tail.len() as int));
//@ loop 3
    invariant_except_break
        remaining_bytes@ + body.data() == tail.subrange(it2.i() - 1, tail.len() as int),
    invariant
        e == prev_bytes@ + old(body).data(), old_body == *old(body), old_size == size,
        body.broken() == old_body.broken(),
        tail == e.subrange(old_size as int, e.len() as int), old_size <= e.len(),
        it2.i() - 1 <= tail.len(),
        1 <= it2.i() <= 2,
        expected_byte == if it2.i() == 1 { 13u8 } else { 10u8 },
        it2.i() >= 2 ==> tail[0] == 13u8,
    ensures
        body.broken() == old_body.broken(),
        tail.len() >= it2.i(),
        remaining_bytes@ + body.data() == tail.subrange(it2.i(), tail.len() as int),
        tail[it2.i() - 1] == expected_byte,
    decreases body.left(),
//@ hint start
    let ghost old_body = *body;
    let ghost old_size = data_size;
    let ghost e = prev_bytes@ + body.data();
    proof { lemma_concat_empty(); }
//@ fn src/streams/aws_chunked_stream.rs AwsChunkedStream::new@
//@ alias Self::read_meta_bytes read_meta_bytes
//@ alias Self::read_data read_data
//@ sig pub fn chunked_gen(y: &mut Yielder, src: Src, seed_signature: Box<str>, amz_date: AmzDate, region: Box<str>, secret_key: Box<str>) -> (r: Result<(), AwsChunkedStreamError>)
//@ spec
    requires amz_date.inv(),
    ensures ({
        let d = decoded(amz_date, region@, secret_key@, seed_signature@, src.data(), src.broken());
        final(y).out() == old(y).out() + d.0 && d.1 == (match r { Ok(_) => End::Done, Err(e) => end_of(e) })
    }),
//@ hint start
    let body = src;
    let ghost b0 = src;
    let ghost y0 = *y;
    let ghost whole = decoded(amz_date, region@, secret_key@, seed_signature@, b0.data(), b0.broken());
    let ghost (gt, gr, gs) = (amz_date, region@, secret_key@);
    broadcast use {catl::lemma_cat_assoc, catl::lemma_cat_empty};
//@ loop 0
    invariant_except_break
        ({
            let rest = decoded(gt, gr, gs, ctx.prev_signature@, prev_bytes@ + body.data(), body.broken());
            y.out() + rest.0 == y0.out() + whole.0 && rest.1 == whole.1
        }),
    invariant
        gt.inv(), y0 == *old(y), b0 == src, gt == amz_date, gr == region@, gs == secret_key@,
        whole == decoded(amz_date, region@, secret_key@, seed_signature@, b0.data(), b0.broken()),
        ctx.amz_date == gt, ctx.region@ == gr, ctx.secret_key@ == gs,
        body.broken() == b0.broken(),
    ensures y.out() == y0.out() + whole.0, whole.1 == End::Done,
    decreases prev_bytes@.len() + body.data().len(),
//@ hint loop1_start
    broadcast use catl::lemma_cat_assoc;
    proof { lemma_concat_take(data@); }
//@ hide decoded first_pos meta_of chunk_sig
//@ hint loop0_start
    proof { lemma_decoded(gt, gr, gs, ctx.prev_signature@, prev_bytes@ + body.data(), body.broken()); }
    let ghost d = prev_bytes@ + body.data();
    assert(y.out() + Seq::<u8>::empty() =~= y.out());
//@ hint before_loop1
    let ghost y1 = *y;
    let ghost i = first_pos(d, 10u8);
    let ghost e = d.subrange(i + 1, d.len() as int);
    proof { lemma_first_pos(d, 10u8); }
    assert(prev_bytes@ + body.data() == e.subrange(meta.size + 2, e.len() as int));
    assert(0 <= i < d.len() && e.len() == d.len() - i - 1);
    assert(meta.size + 2 <= e.len());
    assert(e.subrange(meta.size + 2, e.len() as int).len() == e.len() - meta.size - 2);
    assert((prev_bytes@ + body.data()).len() == prev_bytes@.len() + body.data().len());
    assert(prev_bytes@.len() + body.data().len() < d.len());
    assert(concat(data@) == e.subrange(0, meta.size as int));
    proof { catl::lemma_cat_assoc(y.out(), concat(data@), decoded(gt, gr, gs, ctx.prev_signature@, prev_bytes@ + body.data(), body.broken()).0); }
    assert(data@.subrange(0, data@.len() as int) =~= data@);
    proof { lemma_concat_empty(); lemma_concat_take(data@); }
//@ loop 1
    invariant
        0 <= it1.i() <= it1.v().len(), it1.v() == data@,
        y.out() == y1.out() + concat(data@.subrange(0, it1.i())),
    ensures it1.i() == it1.v().len(),
    decreases it1.v().len() - it1.i(),
