use vstd::string::*;
use vstd::utf8::*;

// ---------------------------------------------------------------- trusted: std operations without a vstd specification
pub assume_specification[u8::is_ascii_digit](b: &u8) -> (r: bool) ensures r == (48 <= *b <= 57);
pub assume_specification[u8::is_ascii_lowercase](b: &u8) -> (r: bool) ensures r == (97 <= *b <= 122);
pub assume_specification[u8::is_ascii_uppercase](b: &u8) -> (r: bool) ensures r == (65 <= *b <= 90);
pub assume_specification[u8::is_ascii_alphabetic](b: &u8) -> (r: bool) ensures r == (65 <= *b <= 90 || 97 <= *b <= 122);
pub assume_specification[u8::is_ascii_alphanumeric](b: &u8) -> (r: bool) ensures r == (48 <= *b <= 57 || 65 <= *b <= 90 || 97 <= *b <= 122);
pub assume_specification[u8::is_ascii_hexdigit](b: &u8) -> (r: bool) ensures r == (48 <= *b <= 57 || 65 <= *b <= 70 || 97 <= *b <= 102);
pub assume_specification[String::as_bytes](s: &String) -> (r: &[u8]) ensures r@ == encode_utf8(s@);
pub assume_specification[String::with_capacity](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub assume_specification<T>[Option::<T>::or](o: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if o is Some { o } else { b });
pub assume_specification<T>[core::mem::drop](x: T);

/// code that the real program must never reach (panic!, unreachable!, unwrap of None, ..)
pub fn vpanic<T>() -> (r: T)
    requires false,
    ensures false,
{ vstd::pervasive::unreached() }

pub mod bc {
    use vstd::prelude::*;
pub open spec fn is_prefix<T>(p: Seq<T>, s: Seq<T>) -> bool {
    p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p
}
pub open spec fn is_suffix<T>(p: Seq<T>, s: Seq<T>) -> bool {
    p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) =~= p
}
/// position of the first c in s, or s.len()
pub open spec fn first_pos<T>(s: Seq<T>, c: T) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + first_pos(s.subrange(1, s.len() as int), c) }
}

pub proof fn lemma_first_pos<T>(s: Seq<T>, c: T)
    ensures
        0 <= first_pos(s, c) <= s.len(),
        first_pos(s, c) < s.len() ==> s[first_pos(s, c)] == c,
        forall|j: int| 0 <= j < first_pos(s, c) ==> s[j] != c,
    decreases s.len(),
{
    if s.len() > 0 && s[0] != c {
        let t = s.subrange(1, s.len() as int);
        lemma_first_pos(t, c);
        assert forall|j: int| 0 <= j < first_pos(s, c) implies s[j] != c by { if j > 0 { assert(s[j] == t[j - 1]); } }
    }
}

    pub broadcast proof fn lemma_empty_chars(s: Seq<char>)
        requires #[trigger] s.len() == 0,
        ensures s == Seq::<char>::empty(),
    { assert(s =~= Seq::empty()); }
}
pub use bc::*;
broadcast use bc::lemma_empty_chars;

/// str operations (trusted)
pub trait VStr: View<V = Seq<char>> {
    fn vlen(&self) -> (r: usize) ensures r == encode_utf8(self@).len();
    fn vsplit_once(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures match r {
            None => first_pos(self@, c) == self@.len(),
            Some((a, b)) => {
                let i = first_pos(self@, c);
                i < self@.len() && a@.len() == i && b@.len() == self@.len() - i - 1 && a@ == self@.subrange(0, i) && b@ == self@.subrange(i + 1, self@.len() as int)
            },
        };
    fn vstarts_with(&self, p: &str) -> (r: bool) ensures r == is_prefix(p@, self@);
    fn vends_with(&self, p: &str) -> (r: bool) ensures r == is_suffix(p@, self@);
}
impl VStr for str {
    #[verifier::external_body]
    fn vlen(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn vsplit_once(&self, c: char) -> (r: Option<(&str, &str)>) { self.split_once(c) }
    #[verifier::external_body]
    fn vstarts_with(&self, p: &str) -> (r: bool) { self.starts_with(p) }
    #[verifier::external_body]
    fn vends_with(&self, p: &str) -> (r: bool) { self.ends_with(p) }
}

// ---------------------------------------------------------------- slices
pub trait VSlice<T>: View<V = Seq<T>> {
    fn vall<F: Fn(&T) -> bool>(&self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures
            r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), true),
            !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((&#[trigger] self@[i],), false);
}
impl<T> VSlice<T> for [T] {
    fn vall<F: Fn(&T) -> bool>(&self, f: F) -> (r: bool)
    {
        let mut i = 0;
        while i < self.len()
            invariant
                0 <= i <= self.len(),
                forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
                forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] self@[j],), true),
            decreases self.len() - i,
        {
            if !f(&self[i]) { return false; }
            i += 1;
        }
        true
    }
}

// ---------------------------------------------------------------- iteration (`for x in E` becomes a loop over E.vinto_iter())
/// an owning iterator over a known sequence (trusted: next yields the items in order)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIt<T> { it: std::vec::IntoIter<T> }
impl<T> VIt<T> {
    pub uninterp spec fn v(&self) -> Seq<T>;
    pub uninterp spec fn i(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).i() <= old(self).v().len(),
        ensures
            final(self).v() == old(self).v(),
            old(self).i() < old(self).v().len() ==> r == Some(old(self).v()[old(self).i()]) && final(self).i() == old(self).i() + 1,
            old(self).i() == old(self).v().len() ==> r is None && final(self).i() == old(self).i(),
    { self.it.next() }
}
/// an iterator over a slice
pub struct VRefIt<'a, T> { pub s: &'a [T], pub n: usize }
impl<'a, T> VRefIt<'a, T> {
    pub open spec fn v(&self) -> Seq<T> { self.s@ }
    pub open spec fn i(&self) -> int { self.n as int }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires 0 <= old(self).i() <= old(self).v().len(),
        ensures
            final(self).v() == old(self).v(),
            old(self).i() < old(self).v().len() ==> r == Some(&old(self).v()[old(self).i()]) && final(self).i() == old(self).i() + 1,
            old(self).i() == old(self).v().len() ==> r is None && final(self).i() == old(self).i(),
    {
        if self.n < self.s.len() {
            let r = &self.s[self.n];
            self.n = self.n + 1;
            Some(r)
        } else { None }
    }
}
pub trait VIntoIter: Sized {
    type It;
    spec fn iok(self, r: Self::It) -> bool;
    fn into_it(self) -> (r: Self::It) ensures self.iok(r);
}
pub fn vinto_iter<S: VIntoIter>(s: S) -> (r: S::It) ensures s.iok(r) { s.into_it() }
impl<T> VIntoIter for VIt<T> {
    type It = VIt<T>;
    open spec fn iok(self, r: VIt<T>) -> bool { r == self }
    fn into_it(self) -> (r: VIt<T>) { self }
}
impl<'a, T> VIntoIter for VRefIt<'a, T> {
    type It = VRefIt<'a, T>;
    open spec fn iok(self, r: VRefIt<'a, T>) -> bool { r == self }
    fn into_it(self) -> (r: VRefIt<'a, T>) { self }
}
impl<T> VIntoIter for Vec<T> {
    type It = VIt<T>;
    open spec fn iok(self, r: VIt<T>) -> bool { r.v() == self@ && r.i() == 0 }
    #[verifier::external_body]
    fn into_it(self) -> (r: VIt<T>) { VIt { it: self.into_iter() } }
}
impl<'a, T> VIntoIter for &'a [T] {
    type It = VRefIt<'a, T>;
    open spec fn iok(self, r: VRefIt<'a, T>) -> bool { r.s@ == self@ && r.n == 0 }
    fn into_it(self) -> (r: VRefIt<'a, T>) { VRefIt { s: self, n: 0 } }
}
impl<'a, T, const N: usize> VIntoIter for &'a [T; N] {
    type It = VRefIt<'a, T>;
    open spec fn iok(self, r: VRefIt<'a, T>) -> bool { r.s@ == self@ && r.n == 0 }
    fn into_it(self) -> (r: VRefIt<'a, T>) { VRefIt { s: self.as_slice(), n: 0 } }
}
impl<'a, T> VIntoIter for &'a Vec<T> {
    type It = VRefIt<'a, T>;
    open spec fn iok(self, r: VRefIt<'a, T>) -> bool { r.s@ == self@ && r.n == 0 }
    fn into_it(self) -> (r: VRefIt<'a, T>) { VRefIt { s: self.as_slice(), n: 0 } }
}
pub trait VSliceIter<T>: View<V = Seq<T>> {
    fn viter<'a>(&'a self) -> (r: VRefIt<'a, T>) ensures r.v() == self@, r.i() == 0;
}
impl<T> VSliceIter<T> for [T] {
    fn viter<'a>(&'a self) -> (r: VRefIt<'a, T>) { VRefIt { s: self, n: 0 } }
}
impl<T> VSliceIter<T> for Vec<T> {
    fn viter<'a>(&'a self) -> (r: VRefIt<'a, T>) { VRefIt { s: self.as_slice(), n: 0 } }
}
pub fn vdrop<T>(_t: T) {}
