// ---------------------------------------------------------------- string order (code points, the order of Rust's str)
pub open spec fn sle(a: Seq<char>, b: Seq<char>) -> bool
    decreases a.len(),
{
    a.len() == 0 || (b.len() > 0 && ((a[0] as u32) < (b[0] as u32) || (a[0] == b[0] && sle(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)))))
}
pub proof fn lemma_sle_antisym(a: Seq<char>, b: Seq<char>)
    requires sle(a, b), sle(b, a),
    ensures a == b,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lemma_sle_antisym(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int));
        assert(a =~= seq![a[0]] + a.subrange(1, a.len() as int));
        assert(b =~= seq![b[0]] + b.subrange(1, b.len() as int));
    } else { assert(a =~= b); }
}
pub type SPair = (Seq<char>, Seq<char>);
pub open spec fn ple(a: SPair, b: SPair) -> bool { if a.0 == b.0 { sle(a.1, b.1) } else { sle(a.0, b.0) } }
/// the views of a sequence of pairs of strings
pub open spec fn pairs_sorted(s: Seq<SPair>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> ple(s[i], s[j]) }
pub open spec fn names_sorted(s: Seq<SPair>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> sle(s[i].0, s[j].0) }
pub proof fn lemma_names_sorted(s: Seq<SPair>)
    requires pairs_sorted(s),
    ensures names_sorted(s),
{
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies sle(s[i].0, s[j].0) by {
        assert(ple(s[i], s[j]));
        lemma_sle_refl(s[i].0);
    }
}
pub proof fn lemma_sle_refl(a: Seq<char>)
    ensures sle(a, a),
    decreases a.len(),
{ if a.len() > 0 { lemma_sle_refl(a.subrange(1, a.len() as int)); } }

pub open spec fn strs_sorted(s: Seq<Seq<char>>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> sle(s[i], s[j]) }

pub open spec fn pairs_ref<'a>(s: Seq<(&'a str, &'a str)>) -> Seq<SPair> { s.map_values(|p: (&'a str, &'a str)| (p.0@, p.1@)) }
pub open spec fn pairs_own(s: Seq<(String, String)>) -> Seq<SPair> { s.map_values(|p: (String, String)| (p.0@, p.1@)) }
/// what a parameter or header list means: the sequence of (name, value) pairs
pub trait VPairs {
    spec fn pv(&self) -> Seq<SPair>;
}
impl<'a> VPairs for [(&'a str, &'a str)] {
    open spec fn pv(&self) -> Seq<SPair> { pairs_ref(self@) }
}
impl VPairs for [(String, String)] {
    open spec fn pv(&self) -> Seq<SPair> { pairs_own(self@) }
}
impl<'a> VPairs for Vec<(&'a str, &'a str)> {
    open spec fn pv(&self) -> Seq<SPair> { pairs_ref(self@) }
}
impl VPairs for Vec<(String, String)> {
    open spec fn pv(&self) -> Seq<SPair> { pairs_own(self@) }
}
/// the pairs called `name`, in order
pub open spec fn values_of(s: Seq<SPair>, name: Seq<char>) -> Seq<SPair> { s.filter(|p: SPair| p.0 == name) }

/// std sorting (trusted): slice::sort and sort_unstable on pairs of strings
pub trait VSort {
    fn vsort(&mut self);
}
impl<'a> VSort for Vec<(&'a str, &'a str)> {
    #[verifier::external_body]
    fn vsort(&mut self)
        ensures pairs_sorted(final(self).pv()), final(self).pv().to_multiset() == old(self).pv().to_multiset(),
    { self.sort() }
}
impl VSort for Vec<(String, String)> {
    #[verifier::external_body]
    fn vsort(&mut self)
        ensures pairs_sorted(final(self).pv()), final(self).pv().to_multiset() == old(self).pv().to_multiset(),
    { self.sort() }
}

impl<'a> VSort for Vec<&'a str> {
    #[verifier::external_body]
    fn vsort(&mut self)
        ensures strs_sorted(views_ref(final(self)@)), views_ref(final(self)@).to_multiset() == views_ref(old(self)@).to_multiset(),
    { self.sort() }
}

/// std binary search (trusted): Ok(i) points at an equal key; Err means no key is equal, provided the keys are sorted
pub trait VBinSearch<T>: View<V = Seq<T>> {
    spec fn bq(&self) -> Seq<SPair>;
    fn vbinary_search_by_key<'b, 'x, F: Fn(&'b T) -> &'x str>(&'b self, k: &&str, f: F) -> (r: Result<usize, usize>) where T: 'b
        requires
            forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
            forall|i: int, x: &'x str| 0 <= i < self@.len() && #[trigger] f.ensures((&self@[i],), x) ==> x@ == self.bq()[i].0,
        ensures
            match r {
                Ok(i) => i < self.bq().len() && self.bq()[i as int].0 == k@,
                Err(_) => names_sorted(self.bq()) ==> forall|i: int| 0 <= i < self.bq().len() ==> (#[trigger] self.bq()[i]).0 != k@,
            };
}
impl<'a> VBinSearch<(&'a str, &'a str)> for [(&'a str, &'a str)] {
    open spec fn bq(&self) -> Seq<SPair> { self.pv() }
    #[verifier::external_body]
    fn vbinary_search_by_key<'b, 'x, F: Fn(&'b (&'a str, &'a str)) -> &'x str>(&'b self, k: &&str, f: F) -> (r: Result<usize, usize>) where (&'a str, &'a str): 'b
    { self.binary_search_by_key(k, |t: &'b (&'a str, &'a str)| f(t)) }
}
impl VBinSearch<(String, String)> for [(String, String)] {
    open spec fn bq(&self) -> Seq<SPair> { self.pv() }
    #[verifier::external_body]
    fn vbinary_search_by_key<'b, 'x, F: Fn(&'b (String, String)) -> &'x str>(&'b self, k: &&str, f: F) -> (r: Result<usize, usize>) where (String, String): 'b
    { self.binary_search_by_key(k, |t: &'b (String, String)| f(t)) }
}
/// Into between a type and itself
pub trait VInto: Sized { fn vinto(self) -> (r: Self) ensures r == self; }
impl<T> VInto for Vec<T> { fn vinto(self) -> (r: Self) { self } }

// ---------------------------------------------------------------- comparison and search of strings
pub open spec fn scmp(a: Seq<char>, b: Seq<char>) -> int { if a == b { 0 } else if sle(a, b) { -1 } else { 1 } }
pub open spec fn ordi(o: core::cmp::Ordering) -> int { match o { core::cmp::Ordering::Less => -1, core::cmp::Ordering::Equal => 0, core::cmp::Ordering::Greater => 1 } }
pub proof fn lemma_sle_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires sle(a, b), sle(b, c),
    ensures sle(a, c),
    decreases a.len(),
{
    if a.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        lemma_sle_trans(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int), c.subrange(1, c.len() as int));
    }
}
pub proof fn lemma_sle_total(a: Seq<char>, b: Seq<char>)
    ensures sle(a, b) || sle(b, a),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] { lemma_sle_total(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)); }
}
pub proof fn lemma_scmp_mono(a: Seq<char>, b: Seq<char>, k: Seq<char>)
    requires sle(a, b),
    ensures scmp(a, k) <= scmp(b, k),
{
    lemma_sle_refl(k);
    lemma_sle_total(a, k);
    lemma_sle_total(b, k);
    if sle(b, k) { lemma_sle_trans(a, b, k); }
    if sle(k, a) { lemma_sle_trans(k, a, b); }
    if sle(a, k) && sle(k, a) { lemma_sle_antisym(a, k); }
    if sle(b, k) && sle(k, b) { lemma_sle_antisym(b, k); }
}
pub trait VStrCmp: View<V = Seq<char>> {
    fn vcmp(&self, o: &str) -> (r: core::cmp::Ordering) ensures ordi(r) == scmp(self@, o@);
}
impl VStrCmp for str {
    #[verifier::external_body]
    fn vcmp(&self, o: &str) -> (r: core::cmp::Ordering) { self.cmp(o) }
}
pub open spec fn cmp_ne<'b, T, F: Fn(&'b T) -> core::cmp::Ordering>(f: F, t: &'b T) -> bool {
    exists|r: core::cmp::Ordering| #[trigger] f.ensures((t,), r) && ordi(r) != 0
}
/// std binary_search_by (trusted): Ok(i) compares equal; Err means none does, provided the comparisons are monotone
pub trait VBinSearchBy<T>: View<V = Seq<T>> {
    fn vbinary_search_by<'b, F: Fn(&'b T) -> core::cmp::Ordering>(&'b self, f: F) -> (r: Result<usize, usize>) where T: 'b
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures
            match r {
                Ok(i) => i < self@.len() && f.ensures((&self@[i as int],), core::cmp::Ordering::Equal),
                Err(_) => (forall|i: int, j: int, x: core::cmp::Ordering, y: core::cmp::Ordering| 0 <= i < j < self@.len() && #[trigger] f.ensures((&self@[i],), x) && #[trigger] f.ensures((&self@[j],), y) ==> ordi(x) <= ordi(y))
                    ==> forall|i: int| 0 <= i < self@.len() ==> cmp_ne(f, &#[trigger] self@[i]),
            };
}
impl<T> VBinSearchBy<T> for [T] {
    #[verifier::external_body]
    fn vbinary_search_by<'b, F: Fn(&'b T) -> core::cmp::Ordering>(&'b self, f: F) -> (r: Result<usize, usize>) where T: 'b
    { self.binary_search_by(|t: &'b T| f(t)) }
}
pub open spec fn views_ref(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|p: &str| p@) }
/// the pairs whose name is in `names`, in order
pub open spec fn select(s: Seq<SPair>, names: Seq<Seq<char>>) -> Seq<SPair>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        let r = select(s.drop_last(), names);
        if names.contains(s.last().0) { r.push(s.last()) } else { r }
    }
}
pub proof fn lemma_select_sorted(s: Seq<SPair>, names: Seq<Seq<char>>)
    requires pairs_sorted(s),
    ensures
        pairs_sorted(select(s, names)),
        forall|i: int| 0 <= i < select(s, names).len() ==> s.contains(#[trigger] select(s, names)[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert(pairs_sorted(d)) by {
            assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies ple(d[i], d[j]) by { assert(s[i] == d[i] && s[j] == d[j]); }
        }
        lemma_select_sorted(d, names);
        let r = select(d, names);
        let q = select(s, names);
        assert forall|i: int| 0 <= i < q.len() implies s.contains(#[trigger] q[i]) by {
            if i < r.len() {
                assert(q[i] == r[i]);
                let k = choose|k: int| 0 <= k < d.len() && d[k] == r[i];
                assert(s[k] == q[i]);
            } else { assert(s[s.len() - 1] == q[i]); }
        }
        assert forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() implies ple(q[i], q[j]) by {
            assert(q[i] == r[i]);
            if j < r.len() { assert(q[j] == r[j]); } else {
                let k = choose|k: int| 0 <= k < d.len() && d[k] == r[i];
                assert(s[k] == q[i] && s[s.len() - 1] == q[j]);
            }
        }
    }
}
