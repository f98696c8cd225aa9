// ---------------------------------------------------------------- trusted: hyper's request types
impl PartialEq for Method {
    #[verifier::external_body]
    fn eq(&self, o: &Method) -> bool { unimplemented!() }
}
impl PartialEq<Method> for &Method {
    #[verifier::external_body]
    fn eq(&self, o: &Method) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Method {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Method) -> bool { self@ == o@ }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<Method> for &Method {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Method) -> bool { self@ == o@ }
}
#[verifier::external_body]
pub fn method_get() -> (r: Method) ensures r@ == "GET"@ { unimplemented!() }
#[verifier::external_body]
pub fn method_put() -> (r: Method) ensures r@ == "PUT"@ { unimplemented!() }
#[verifier::external_body]
pub fn method_post() -> (r: Method) ensures r@ == "POST"@ { unimplemented!() }
#[verifier::external_body]
pub fn method_head() -> (r: Method) ensures r@ == "HEAD"@ { unimplemented!() }
#[verifier::external_body]
pub fn method_delete() -> (r: Method) ensures r@ == "DELETE"@ { unimplemented!() }
#[verifier::external_body]
pub struct Uri { _p: () }
impl Uri {
    pub uninterp spec fn pathv(&self) -> Seq<char>;
    pub uninterp spec fn queryv(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn path(&self) -> (r: &str) ensures r@ == self.pathv() { unimplemented!() }
    #[verifier::external_body]
    pub fn query(&self) -> (r: Option<&str>) ensures match r { Some(s) => self.queryv() == Some(s@), None => self.queryv() is None } { unimplemented!() }
}
impl Request {
    pub uninterp spec fn meth(&self) -> Method;
    pub uninterp spec fn uriv(&self) -> Uri;
    pub uninterp spec fn bodyv(&self) -> Body;
    #[verifier::external_body]
    pub fn method(&self) -> (r: &Method) ensures *r == self.meth() { unimplemented!() }
    #[verifier::external_body]
    pub fn uri(&self) -> (r: &Uri) ensures *r == self.uriv() { unimplemented!() }
    #[verifier::external_body]
    pub fn body_mut(&mut self) -> (r: &mut Body)
        ensures *r == old(self).bodyv(), final(self).bodyv() == *final(r), same_head(*old(self), *final(self)),
    { unimplemented!() }
}
/// two requests that differ at most in the body
pub open spec fn same_head(a: Request, b: Request) -> bool { a.meth() == b.meth() && a.uriv() == b.uriv() && a.hm() == b.hm() }
// ---------------------------------------------------------------- trusted: media types
#[verifier::external_body]
pub struct MimeName<'a> { _p: &'a () }
#[verifier::external_body]
pub struct MimeError { _p: () }
impl<'a> View for MimeName<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> MimeName<'a> {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == self@ { unimplemented!() }
}
impl<'a, 'b> PartialEq<&'b str> for MimeName<'a> {
    #[verifier::external_body]
    fn eq(&self, o: &&'b str) -> bool { unimplemented!() }
}
impl<'a, 'b> vstd::std_specs::cmp::PartialEqSpecImpl<&'b str> for MimeName<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &&'b str) -> bool { self@ == o@ }
}
/// the media type a text denotes
pub uninterp spec fn mime_of(s: Seq<char>) -> Option<Mime>;
impl Mime {
    pub uninterp spec fn ty(&self) -> Seq<char>;
    pub uninterp spec fn sub(&self) -> Seq<char>;
    pub uninterp spec fn param(&self, n: Seq<char>) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn type_(&self) -> (r: MimeName<'_>) ensures r@ == self.ty() { unimplemented!() }
    #[verifier::external_body]
    pub fn subtype(&self) -> (r: MimeName<'_>) ensures r@ == self.sub() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_param(&self, n: &str) -> (r: Option<MimeName<'_>>)
        ensures match r { Some(v) => self.param(n@) == Some(v@), None => self.param(n@) is None }
    { unimplemented!() }
}
impl VParse for Mime {
    type Err = MimeError;
    open spec fn vparsed(s: Seq<char>, r: Result<Self, MimeError>) -> bool { match r { Ok(m) => mime_of(s) == Some(m), Err(_) => mime_of(s) is None } }
    #[verifier::external_body]
    fn vfrom_str(s: &str) -> (r: Result<Self, MimeError>) { unimplemented!() }
}
// ---------------------------------------------------------------- trusted: bodies as streams
/// std::mem::take
pub trait VDefault: Sized { spec fn is_default(&self) -> bool; }
#[verifier::external_body]
pub fn vtake<T: VDefault>(t: &mut T) -> (r: T) ensures r == *old(t), final(t).is_default() { unimplemented!() }
impl VDefault for Body { open spec fn is_default(&self) -> bool { self@.len() == 0 && !self.broken() } }
#[verifier::external_body]
pub struct HyperError { _p: () }
#[verifier::external_body]
pub struct IoError { _p: () }
pub enum IoErrorKind { Other, InvalidData, InvalidInput, NotFound, UnexpectedEof }
#[verifier::external_body]
pub fn io_error_new<T>(k: IoErrorKind, t: T) -> IoError { unimplemented!() }
impl VDisp for HyperError { uninterp spec fn dv(&self) -> Seq<char>; }
/// a stream of byte chunks
#[verifier::external_body]
pub struct IoBody { _p: () }
impl View for IoBody { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl IoBody { pub uninterp spec fn broken(&self) -> bool; }
impl Body {
    /// reading it ends with an error
    pub uninterp spec fn broken(&self) -> bool;
    /// StreamExt::map
    #[verifier::external_body]
    pub fn map<F: Fn(Result<Bytes, HyperError>) -> Result<Bytes, IoError>>(self, f: F) -> (r: IoBody)
        requires forall|x: Result<Bytes, HyperError>| #[trigger] f.requires((x,)),
        ensures
            (forall|x: Result<Bytes, HyperError>, y: Result<Bytes, IoError>| #[trigger] f.ensures((x,), y) ==> match x { Ok(b) => y == Ok::<Bytes, IoError>(b), Err(_) => y is Err })
                ==> r@ == self@ && r.broken() == self.broken(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn to_bytes(b: Body) -> (r: Result<Bytes, HyperError>) ensures match r { Ok(x) => x@ == b@ && !b.broken(), Err(_) => b.broken() } { unimplemented!() }
impl VBytesOf for Bytes { open spec fn vb(&self) -> Seq<u8> { self@ } }
impl Bytes {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
impl std::ops::Deref for Bytes {
    type Target = [u8];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
