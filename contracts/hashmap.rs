// ---------------------------------------------------------------- trusted: HashMap<String, String>
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
impl View for HashMap<String, String> { type V = Map<Seq<char>, Seq<char>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
impl HashMap<String, String> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: String) -> (r: Option<String>) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<Seq<char>, Seq<char>>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn viter<'a>(&'a self) -> (r: VIt<(&'a String, &'a String)>) ensures map_entries(self@, r.v()), r.i() == 0 { unimplemented!() }
}
/// the entries of a map, each once, in some order
pub open spec fn map_entries(m: Map<Seq<char>, Seq<char>>, s: Seq<(&String, &String)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_pair((#[trigger] s[i]).0@, s[i].1@)
    &&& forall|k: Seq<char>| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k && s[i].1@ == m[k]
}
impl<'a> VIntoIter for &'a HashMap<String, String> {
    type It = VIt<(&'a String, &'a String)>;
    open spec fn iok(self, r: VIt<(&'a String, &'a String)>) -> bool { map_entries(self@, r.v()) && r.i() == 0 }
    #[verifier::external_body]
    fn into_it(self) -> (r: VIt<(&'a String, &'a String)>) { unimplemented!() }
}
