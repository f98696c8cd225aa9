// ---------------------------------------------------------------- trusted: hyper's response types
#[derive(Clone, Copy)]
pub struct StatusCode(pub u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const CREATED: StatusCode = StatusCode(201);
    pub const ACCEPTED: StatusCode = StatusCode(202);
    pub const NO_CONTENT: StatusCode = StatusCode(204);
    pub const PARTIAL_CONTENT: StatusCode = StatusCode(206);
    pub const MOVED_PERMANENTLY: StatusCode = StatusCode(301);
    pub const FOUND: StatusCode = StatusCode(302);
    pub const SEE_OTHER: StatusCode = StatusCode(303);
    pub const NOT_MODIFIED: StatusCode = StatusCode(304);
    pub const TEMPORARY_REDIRECT: StatusCode = StatusCode(307);
    pub const PERMANENT_REDIRECT: StatusCode = StatusCode(308);
    pub const BAD_REQUEST: StatusCode = StatusCode(400);
    pub const UNAUTHORIZED: StatusCode = StatusCode(401);
    pub const PAYMENT_REQUIRED: StatusCode = StatusCode(402);
    pub const FORBIDDEN: StatusCode = StatusCode(403);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub const METHOD_NOT_ALLOWED: StatusCode = StatusCode(405);
    pub const NOT_ACCEPTABLE: StatusCode = StatusCode(406);
    pub const REQUEST_TIMEOUT: StatusCode = StatusCode(408);
    pub const CONFLICT: StatusCode = StatusCode(409);
    pub const GONE: StatusCode = StatusCode(410);
    pub const LENGTH_REQUIRED: StatusCode = StatusCode(411);
    pub const PRECONDITION_FAILED: StatusCode = StatusCode(412);
    pub const PAYLOAD_TOO_LARGE: StatusCode = StatusCode(413);
    pub const UNSUPPORTED_MEDIA_TYPE: StatusCode = StatusCode(415);
    pub const RANGE_NOT_SATISFIABLE: StatusCode = StatusCode(416);
    pub const UNPROCESSABLE_ENTITY: StatusCode = StatusCode(422);
    pub const TOO_MANY_REQUESTS: StatusCode = StatusCode(429);
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500);
    pub const NOT_IMPLEMENTED: StatusCode = StatusCode(501);
    pub const BAD_GATEWAY: StatusCode = StatusCode(502);
    pub const SERVICE_UNAVAILABLE: StatusCode = StatusCode(503);
    pub const GATEWAY_TIMEOUT: StatusCode = StatusCode(504);
}
/// a header value (visible characters, spaces and tabs)
#[verifier::external_body]
pub struct HeaderValue { _p: () }
impl View for HeaderValue { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct InvalidHeaderValue { _p: () }
pub open spec fn header_byte(b: u8) -> bool { b == 9 || 32 <= b < 127 || b >= 128 }
pub open spec fn header_bytes(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> header_byte(#[trigger] b[i]) }
/// what a header value can be made of
pub trait VBytesOf { spec fn vb(&self) -> Seq<u8>; }
impl VBytesOf for String { open spec fn vb(&self) -> Seq<u8> { encode_utf8(self@) } }
impl VBytesOf for &str { open spec fn vb(&self) -> Seq<u8> { encode_utf8(self@) } }
impl VBytesOf for &String { open spec fn vb(&self) -> Seq<u8> { encode_utf8(self@) } }
impl VBytesOf for &[u8] { open spec fn vb(&self) -> Seq<u8> { self@ } }
impl VBytesOf for Vec<u8> { open spec fn vb(&self) -> Seq<u8> { self@ } }
impl HeaderValue {
    #[verifier::external_body]
    pub fn try_from<T: VBytesOf>(t: T) -> (r: Result<HeaderValue, InvalidHeaderValue>)
        ensures match r { Ok(v) => v@ == t.vb() && header_bytes(t.vb()), Err(_) => !header_bytes(t.vb()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bytes(b: &[u8]) -> (r: Result<HeaderValue, InvalidHeaderValue>)
        ensures match r { Ok(v) => v@ == b@ && header_bytes(b@), Err(_) => !header_bytes(b@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<HeaderValue, InvalidHeaderValue>)
        ensures match r { Ok(v) => v@ == encode_utf8(s@) && header_bytes(encode_utf8(s@)), Err(_) => !header_bytes(encode_utf8(s@)) }
    { unimplemented!() }
}
/// the header fields of a response, by lower case name
#[verifier::external_body]
pub struct RespHeaders { _p: () }
impl View for RespHeaders { type V = Map<Seq<char>, Seq<u8>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<u8>>; }
impl RespHeaders {
    #[verifier::external_body]
    pub fn new() -> (r: RespHeaders) ensures r@ == Map::<Seq<char>, Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, n: HName, v: HeaderValue) -> (r: Option<HeaderValue>)
        ensures final(self)@ == old(self)@.insert(n@, v@) { unimplemented!() }
}
/// a body held in memory
#[verifier::external_body]
pub struct Body { _p: () }
impl View for Body { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub trait VIntoBody: Sized { spec fn bodyv(&self) -> Seq<u8>; fn vinto_body(self) -> (r: Body) ensures r@ == self.bodyv(); }
impl VIntoBody for Body { open spec fn bodyv(&self) -> Seq<u8> { self@ } fn vinto_body(self) -> (r: Body) { self } }
impl Body {
    #[verifier::external_body]
    pub fn empty() -> (r: Body) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from<T: VBytesOf>(t: T) -> (r: Body) ensures r@ == t.vb() { unimplemented!() }
}
pub struct Response { pub st: StatusCode, pub hd: RespHeaders, pub bd: Body }
impl Response {
    pub fn new(b: Body) -> (r: Response) ensures r.st == StatusCode::OK, r.hd@ == Map::<Seq<char>, Seq<u8>>::empty(), r.bd == b
    { Response { st: StatusCode::OK, hd: RespHeaders::new(), bd: b } }
    pub fn status_mut(&mut self) -> (r: &mut StatusCode)
        ensures *r == old(self).st, final(self).st == *final(r), final(self).hd == old(self).hd, final(self).bd == old(self).bd
    { &mut self.st }
    pub fn headers_mut(&mut self) -> (r: &mut RespHeaders)
        ensures *r == old(self).hd, final(self).hd == *final(r), final(self).st == old(self).st, final(self).bd == old(self).bd
    { &mut self.hd }
    pub fn body_mut(&mut self) -> (r: &mut Body)
        ensures *r == old(self).bd, final(self).bd == *final(r), final(self).st == old(self).st, final(self).hd == old(self).hd
    { &mut self.bd }
    pub fn status(&self) -> (r: StatusCode) ensures r == self.st { self.st }
    pub fn body(&self) -> (r: &Body) ensures *r == self.bd { &self.bd }
}
/// a header name given to a setter: a constant or a reference to one
pub trait VHeaderName: Sized { spec fn hn(&self) -> Seq<char>; fn into_owned_name(self) -> (r: HName) ensures r@ == self.hn(); }
impl VHeaderName for HName { open spec fn hn(&self) -> Seq<char> { self@ } fn into_owned_name(self) -> (r: HName) { self } }
impl VHeaderName for &HName {
    open spec fn hn(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn into_owned_name(self) -> (r: HName) { unimplemented!() }
}
/// media types
#[verifier::external_body]
pub struct Mime { _p: () }
impl View for Mime { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Mime {
    #[verifier::external_body]
    pub fn vmime_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn mime_text_xml() -> (r: &'static Mime) ensures r@ == "text/xml"@ { unimplemented!() }
/// boxed errors
#[verifier::external_body]
pub struct BoxStdError { _p: () }
impl BoxStdError {
    #[verifier::external_body]
    pub fn vfrom<E>(e: E) -> (r: BoxStdError) { unimplemented!() }
}
pub trait VIntoBox: Sized { fn vinto_box(self) -> (r: BoxStdError); }
impl<E> VIntoBox for E { fn vinto_box(self) -> (r: BoxStdError) { BoxStdError::vfrom(self) } }
// ---------------------------------------------------------------- trusted: xml-rs
pub enum Ev { Doc, Start(Seq<char>), Chars(Seq<char>), End }
/// the document an XML parser reads from these bytes (adjacent text is one text, empty text is none)
pub uninterp spec fn xml_evs(b: Seq<u8>) -> Seq<Ev>;
pub open spec fn ev_push(s: Seq<Ev>, e: Ev) -> Seq<Ev> {
    match e {
        Ev::Chars(c) => if c.len() == 0 { s } else if s.len() > 0 && s.last() is Chars { s.drop_last().push(Ev::Chars(s.last()->Chars_0 + c)) } else { s.push(e) },
        _ => s.push(e),
    }
}
pub axiom fn axiom_xml_empty() ensures xml_evs(Seq::<u8>::empty()) == Seq::<Ev>::empty();
pub enum XmlVersion { Version10, Version11 }
pub enum XmlEvent<'a> {
    StartDocument { version: XmlVersion, encoding: Option<&'a str>, standalone: Option<bool> },
    StartEl(&'a str),
    Characters(&'a str),
    EndEl,
}
impl<'a> XmlEvent<'a> {
    pub open spec fn ev(&self) -> Ev {
        match self {
            XmlEvent::StartDocument { version: _, encoding: _, standalone: _ } => Ev::Doc,
            XmlEvent::StartEl(n) => Ev::Start(n@),
            XmlEvent::Characters(n) => Ev::Chars(n@),
            XmlEvent::EndEl => Ev::End,
        }
    }
    pub fn start_element(n: &'a str) -> (r: XmlEvent<'a>) ensures r == XmlEvent::StartEl(n) { XmlEvent::StartEl(n) }
    pub fn characters(n: &'a str) -> (r: XmlEvent<'a>) ensures r == XmlEvent::Characters(n) { XmlEvent::Characters(n) }
    pub fn end_element() -> (r: XmlEvent<'a>) ensures r is EndEl { XmlEvent::EndEl }
}
pub enum XmlError { Io }
/// the writer's output is its buffer; every event written is one event of the document
pub struct EventWriter<'b> { pub out: &'b mut Vec<u8> }
impl<'b> EventWriter<'b> {
    pub fn new(b: &'b mut Vec<u8>) -> (r: EventWriter<'b>) ensures *r.out == *old(b), *final(r.out) == *final(b) { EventWriter { out: b } }
    #[verifier::external_body]
    pub fn write(&mut self, e: XmlEvent<'_>) -> (r: Result<(), XmlError>)
        ensures
            r is Ok ==> xml_evs(final(self).out@) == ev_push(xml_evs(old(self).out@), e.ev()),
            *final(final(self).out) == *final(old(self).out),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct InvalidHeaderName { _p: () }
/// the header name (lower case) these bytes are, if they are one
pub mod hnof { use super::*; pub uninterp spec fn header_name_of(b: Seq<u8>) -> Option<Seq<char>>; }
pub use hnof::header_name_of;
impl HName {
    #[verifier::external_body]
    pub fn from_bytes(b: &[u8]) -> (r: Result<HName, InvalidHeaderName>)
        ensures match r { Ok(n) => header_name_of(b@) == Some(n@), Err(_) => header_name_of(b@) is None }
    { unimplemented!() }
}
