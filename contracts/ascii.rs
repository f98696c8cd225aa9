// ---------------------------------------------------------------- ASCII text and its bytes
pub mod ascii_m {
use vstd::prelude::*;
use vstd::utf8::*;
pub open spec fn ascii_chars(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub open spec fn ascii_bytes(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128 }
/// the UTF-8 bytes are all ASCII exactly when the characters are, and then correspond one to one
pub proof fn lemma_utf8_ascii(s: Seq<char>)
    ensures
        ascii_bytes(encode_utf8(s)) ==> ascii_chars(s),
        ascii_chars(s) ==> ascii_bytes(encode_utf8(s)) && encode_utf8(s).len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] encode_utf8(s)[i] == s[i] as u8,
    decreases s.len(),
{
    reveal_with_fuel(encode_utf8, 2);
    if s.len() > 0 {
        let t = s.drop_first();
        lemma_utf8_ascii(t);
        let e = encode_scalar(s[0] as u32);
        let b = encode_utf8(t);
        assert(encode_utf8(s) =~= e + b);
        let c = s[0] as u32;
        assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == s[i + 1]);
        assert(forall|i: int| 1 <= i < s.len() ==> #[trigger] s[i] == t[i - 1]);
        assert(forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == encode_utf8(s)[i + e.len()]);
        if c < 128 {
            assert(e.len() == 1);
            assert((c & 0x7F) as u8 == c as u8) by (bit_vector) requires c < 128;
            assert((c as u8) & 0x7F == c as u8) by (bit_vector) requires c < 128;
            assert(0u8 | (c as u8) == c as u8) by (bit_vector);
            assert(e[0] == c as u8);
            if ascii_chars(s) {
                assert(ascii_chars(t));
                assert forall|i: int| 0 <= i < s.len() implies #[trigger] encode_utf8(s)[i] == s[i] as u8 by {
                    if i > 0 { assert(b[i - 1] == encode_utf8(s)[i]); }
                }
            }
            if ascii_bytes(encode_utf8(s)) {
                assert(ascii_bytes(b));
                assert(ascii_chars(t));
            }
        } else {
            assert(e.len() > 0);
            assert(forall|x: u8| #[trigger] (0xC0u8 | x) >= 128) by (bit_vector);
            assert(forall|x: u8| #[trigger] (0xE0u8 | x) >= 128) by (bit_vector);
            assert(forall|x: u8| #[trigger] (0xF0u8 | x) >= 128) by (bit_vector);
            assert(e[0] >= 128);
            assert(encode_utf8(s)[0] == e[0]);
        }
    }
}
/// all bytes are decimal digits
pub open spec fn digit_bytes(s: Seq<char>) -> bool { forall|i: int| 0 <= i < encode_utf8(s).len() ==> 48 <= #[trigger] encode_utf8(s)[i] <= 57 }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' }
pub broadcast proof fn lemma_digit_bytes(s: Seq<char>)
    ensures #[trigger] digit_bytes(s) == all_digits(s),
{
    lemma_utf8_ascii(s);
    if digit_bytes(s) {
        assert(ascii_bytes(encode_utf8(s)));
        assert forall|i: int| 0 <= i < s.len() implies '0' <= #[trigger] s[i] <= '9' by { assert(encode_utf8(s)[i] == s[i] as u8); }
    }
    if all_digits(s) { assert(ascii_chars(s)); }
}
}
pub use ascii_m::*;
broadcast use ascii_m::lemma_digit_bytes;
