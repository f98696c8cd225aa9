// ---------------------------------------------------------------- trusted: percent-decoding (urlencoding::decode)
/// the text with every %XX replaced by its byte, if the bytes are UTF-8
pub uninterp spec fn url_decoded(s: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
pub struct FromUtf8Error { _p: () }
#[verifier::external_body]
pub fn vurl_decode(s: &str) -> (r: Result<String, FromUtf8Error>)
    ensures match r { Ok(t) => url_decoded(s@) == Some(t@), Err(_) => url_decoded(s@) is None }
{ unimplemented!() }
