//@ include base.rs
//@ include order.rs
//@ include hname.rs
//@ text
#[verifier::external_body]
pub struct QsError { _p: () }
/// what application/x-www-form-urlencoded parsing yields (trusted: serde_urlencoded)
pub uninterp spec fn urlencoded(q: Seq<char>) -> Option<Seq<SPair>>;
#[verifier::external_body]
pub fn parse_urlencoded(q: &str) -> (r: Result<Vec<(String, String)>, QsError>)
    ensures match r { Ok(v) => urlencoded(q@) == Some(v.pv()), Err(_) => urlencoded(q@) is None },
{ unimplemented!() }
//@ item src/data_structures/ordered_headers.rs OrderedHeaders
//@ item src/data_structures/ordered_qs.rs OrderedQs
//@ method binary_search_by_key vbinary_search_by_key
//@ method sort vsort
//@ method sort_unstable vsort
//@ method parse vparse_t
//@ method as_ref as_slice
//@ into
//@ rewrite serde_urlencoded :: from_str :: < Vec < ( String , String ) > > ==> parse_urlencoded
//@ rewrite serde_urlencoded :: de :: Error ==> QsError
//@ rewrite drop ( name ) ==> vdrop ( name )
//@ comb map option
//@ text
/// AsRef<str> of &str
pub trait VStrRef { spec fn vsr(&self) -> Seq<char>; fn vstr(&self) -> (r: &str) ensures r@ == self.vsr(); }
impl<'a> VStrRef for &'a str { open spec fn vsr(&self) -> Seq<char> { self@ } fn vstr(&self) -> (r: &str) { self } }
/// FromStr (uninterpreted): what a string parses to
pub trait VParse: Sized {
    type Err;
    spec fn vparsed(s: Seq<char>, r: Result<Self, Self::Err>) -> bool;
    fn vfrom_str(s: &str) -> (r: Result<Self, Self::Err>) ensures Self::vparsed(s@, r);
}
pub trait VStrParse { fn vparse_t<T: VParse>(&self) -> Result<T, T::Err>; }
impl VStrParse for str {
    fn vparse_t<T: VParse>(&self) -> (r: Result<T, T::Err>) ensures T::vparsed(self@, r) { T::vfrom_str(self) }
}
/// a lookup: the value of some pair with this name, or none when there is none
pub open spec fn lookup_ok(s: Seq<SPair>, name: Seq<char>, r: Option<Seq<char>>) -> bool {
    match r {
        Some(v) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (name, v),
        None => forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != name,
    }
}
pub open spec fn assign_ok<T: VParse>(s: Seq<SPair>, name: Seq<char>, o: Option<T>, n: Option<T>, r: Result<(), T::Err>) -> bool {
    match r {
        Ok(_) => (lookup_ok(s, name, None) && n == o) || (exists|v: Seq<char>, x: T| #[trigger] lookup_ok(s, name, Some(v)) && #[trigger] T::vparsed(v, Ok(x)) && n == Some(x)),
        Err(e) => n == o && exists|v: Seq<char>| #[trigger] lookup_ok(s, name, Some(v)) && T::vparsed(v, Err(e)),
    }
}
/// a request's header fields (names are lower case, each value is text or not)
#[verifier::external_body]
pub struct Request { _p: () }
#[verifier::external_body]
pub struct HValue { _p: () }
#[verifier::external_body]
pub struct ToStrError { _p: () }
impl HValue {
    pub uninterp spec fn text(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Result<&str, ToStrError>)
        ensures match r { Ok(s) => self.text() == Some(s@), Err(_) => self.text() is None }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct HeaderMap { _p: () }
impl HeaderMap {
    /// every field, repeated names included
    pub uninterp spec fn fields(&self) -> Seq<(&HName, &HValue)>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.fields().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn viter(&self) -> (r: VIt<(&HName, &HValue)>) ensures r.v() == self.fields(), r.i() == 0 { unimplemented!() }
}
impl Request {
    pub uninterp spec fn hm(&self) -> HeaderMap;
    #[verifier::external_body]
    pub fn headers(&self) -> (r: &HeaderMap) ensures *r == self.hm() { unimplemented!() }
}
pub open spec fn field_pairs(f: Seq<(&HName, &HValue)>) -> Seq<SPair> { f.map_values(|p: (&HName, &HValue)| (p.0@, p.1.text().unwrap())) }
impl OrderedQs {
    pub open spec fn inv(&self) -> bool { pairs_sorted(self.qs.pv()) }
}
impl<'a> OrderedHeaders<'a> {
    pub open spec fn inv(&self) -> bool { pairs_sorted(self.headers.pv()) }
}
impl OrderedQs {
//@ fn src/data_structures/ordered_qs.rs OrderedQs::from_query
//@ sig pub fn from_query(query: &str) -> (r: Result<Self, QsError>)
//@ spec
    ensures match r {
        Ok(q) => q.inv() && urlencoded(query@) is Some && q.qs.pv().to_multiset() == urlencoded(query@).unwrap().to_multiset(),
        Err(_) => urlencoded(query@) is None,
    },
//@ fn src/data_structures/ordered_qs.rs OrderedQs::get
//@ sig pub fn get(&self, name: &str) -> (r: Option<&str>)
//@ spec
    requires self.inv(),
    ensures lookup_ok(self.qs.pv(), name@, match r { Some(v) => Some(v@), None => None }),
//@ hint after_let_qs
    proof { assert(qs.pv() == self.qs.pv()); lemma_names_sorted(qs.pv()); assert(names_sorted(qs.bq())); }
//@ closure 0
|p: &(String, String)| -> (o: &str) ensures o@ == p.0@
//@ text
//@ fn src/data_structures/ordered_qs.rs OrderedQs::assign
//@ sig pub fn assign<T: VParse>(&self, name: &str, opt: &mut Option<T>) -> (r: Result<(), T::Err>)
//@ spec
    requires self.inv(),
    ensures
        assign_ok(self.qs.pv(), name@, *old(opt), *final(opt), r),
//@ fn src/data_structures/ordered_qs.rs OrderedQs::assign_str
//@ sig pub fn assign_str(&self, name: &str, opt: &mut Option<String>)
//@ spec
    requires self.inv(),
    ensures
        match *final(opt) {
            Some(s) => lookup_ok(self.qs.pv(), name@, Some(s@)) || (*old(opt) == Some(s) && lookup_ok(self.qs.pv(), name@, None)),
            None => *old(opt) is None && lookup_ok(self.qs.pv(), name@, None),
        },
//@ text
}
impl<'a> OrderedHeaders<'a> {
//@ fn src/data_structures/ordered_headers.rs OrderedHeaders::get
//@ sig pub fn get<N: AsHName>(&self, name: N) -> (r: Option<&'a str>)
//@ spec
    requires self.inv(),
    ensures
        r is Some ==> lookup_ok(self.headers.pv(), name.hv(), Some(r.unwrap()@)),
        r is None ==> lookup_ok(self.headers.pv(), name.hv(), None),
//@ hint after_let_headers
    proof { assert(headers.pv() == self.headers.pv()); lemma_names_sorted(headers.pv()); assert(names_sorted(headers.bq())); }
//@ hint end
    proof { assert(ans is Some ==> exists|i: int| 0 <= i < self.headers.pv().len() && #[trigger] self.headers.pv()[i] == (name.hv(), ans.unwrap()@)); assert(self.headers.pv() =~= headers.pv()); assert(ans is None ==> forall|i: int| 0 <= i < headers.bq().len() ==> (#[trigger] headers.bq()[i]).0 != name.hv()); }
//@ closure 0
|p: &(&'a str, &'a str)| -> (o: &'a str) ensures o@ == p.0@
//@ fn src/data_structures/ordered_headers.rs OrderedHeaders::assign
//@ sig pub fn assign<T: VParse, N: AsHName>(&self, name: N, opt: &mut Option<T>) -> (r: Result<(), T::Err>)
//@ spec
    requires self.inv(),
    ensures
        assign_ok(self.headers.pv(), name.hv(), *old(opt), *final(opt), r),
//@ fn src/data_structures/ordered_headers.rs OrderedHeaders::assign_str
//@ sig pub fn assign_str<N: AsHName>(&self, name: N, opt: &mut Option<String>)
//@ spec
    requires self.inv(),
    ensures
        match *final(opt) {
            Some(s) => lookup_ok(self.headers.pv(), name.hv(), Some(s@)) || (*old(opt) == Some(s) && lookup_ok(self.headers.pv(), name.hv(), None)),
            None => *old(opt) is None && lookup_ok(self.headers.pv(), name.hv(), None),
        },
//@ fn src/data_structures/ordered_headers.rs OrderedHeaders::from_req
//@ sig pub fn from_req(req: &'a Request) -> (r: Result<Self, ToStrError>)
//@ method iter viter
//@ spec
    ensures match r {
        Ok(h) => h.inv()
            && (forall|i: int| 0 <= i < req.hm().fields().len() ==> (#[trigger] req.hm().fields()[i]).1.text() is Some)
            && h.headers.pv().to_multiset() == field_pairs(req.hm().fields()).to_multiset(),
        Err(_) => exists|i: int| 0 <= i < req.hm().fields().len() && (#[trigger] req.hm().fields()[i]).1.text() is None,
    },
//@ loop 0
    invariant
        it0.v() == req.hm().fields(),
        0 <= it0.i() <= it0.v().len(),
        headers@.len() == it0.i(),
        forall|i: int| 0 <= i < it0.i() ==> (#[trigger] headers@[i]).0@ == req.hm().fields()[i].0@ && headers@[i].1@ == req.hm().fields()[i].1.text().unwrap(),
        forall|i: int| 0 <= i < it0.i() ==> (#[trigger] req.hm().fields()[i]).1.text() is Some,
    ensures it0.i() == it0.v().len(),
    decreases it0.v().len() - it0.i(),
//@ hint loop0_body
    proof { assert(req.hm().fields()[it0.i() - 1] == el0); }
//@ hint after_loop0
    proof { assert(headers.pv() =~= field_pairs(req.hm().fields())); }
//@ fn src/data_structures/ordered_headers.rs OrderedHeaders::map_signed_headers
//@ sig pub fn map_signed_headers(&self, signed_headers: &[&str]) -> (r: Self)
//@ method iter viter
//@ method binary_search_by vbinary_search_by
//@ method cmp vcmp
//@ method as_ref vstr
//@ spec
    requires self.inv(), strs_sorted(views_ref(signed_headers@)),
    ensures
        r.headers.pv() == select(self.headers.pv(), views_ref(signed_headers@)),
        r.inv(),
//@ closure 0
|p: &&str| -> (o: core::cmp::Ordering) ensures ordi(o) == scmp((*p)@, name@)
//@ loop 0
    invariant
        self.inv(),
        strs_sorted(views_ref(signed_headers@)),
        it0.v() == self.headers@,
        0 <= it0.i() <= it0.v().len(),
        headers.pv() == select(self.headers.pv().subrange(0, it0.i()), views_ref(signed_headers@)),
    ensures it0.i() == it0.v().len(),
    decreases it0.v().len() - it0.i(),
//@ hint loop0_body
    proof {
        let names = views_ref(signed_headers@);
        let s = self.headers.pv();
        let k = it0.i() - 1;
        assert(s[k] == (name.hv(), value@));
        assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k));
        assert(s.subrange(0, k + 1).last() == s[k]);
        assert forall|i: int, j: int| 0 <= i < j < names.len() implies scmp(#[trigger] names[i], name.hv()) <= scmp(#[trigger] names[j], name.hv()) by { lemma_scmp_mono(names[i], names[j], name.hv()); }
        assert forall|i: int| 0 <= i < signed_headers@.len() implies (#[trigger] signed_headers@[i])@ == names[i] by {}
        assert(headers.pv().push((name.hv(), value@)) =~= pairs_ref(headers@.push((name, value))));
    }
//@ hint after_loop0
    proof { assert(self.headers.pv().subrange(0, self.headers.pv().len() as int) =~= self.headers.pv()); lemma_select_sorted(self.headers.pv(), views_ref(signed_headers@)); }
//@ text
}
