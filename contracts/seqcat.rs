// ---------------------------------------------------------------- concatenation and subranges of byte strings
pub mod catl {
    use vstd::prelude::*;
    pub broadcast proof fn lemma_cat_take(a: Seq<u8>, b: Seq<u8>, k: int)
        requires 0 <= k <= a.len() + b.len(),
        ensures #[trigger] (a + b).subrange(0, k) == if k <= a.len() { a.subrange(0, k) } else { a + b.subrange(0, k - a.len()) },
    { if k <= a.len() { assert((a + b).subrange(0, k) =~= a.subrange(0, k)); } else { assert((a + b).subrange(0, k) =~= a + b.subrange(0, k - a.len())); } }
    pub broadcast proof fn lemma_cat_drop(a: Seq<u8>, b: Seq<u8>, k: int, n: int)
        requires 0 <= k <= n, n == a.len() + b.len(),
        ensures #[trigger] (a + b).subrange(k, n) == if k <= a.len() { a.subrange(k, a.len() as int) + b } else { b.subrange(k - a.len(), b.len() as int) },
    { if k <= a.len() { assert((a + b).subrange(k, n) =~= a.subrange(k, a.len() as int) + b); } else { assert((a + b).subrange(k, n) =~= b.subrange(k - a.len(), b.len() as int)); } }
    pub broadcast proof fn lemma_cat_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
        ensures #[trigger] ((a + b) + c) == a + (b + c),
    { assert((a + b) + c =~= a + (b + c)); }
    pub broadcast proof fn lemma_cat_empty(a: Seq<u8>, b: Seq<u8>)
        ensures a.len() == 0 ==> #[trigger] (a + b) == b, b.len() == 0 ==> a + b == a,
    { if a.len() == 0 { assert(a + b =~= b); } if b.len() == 0 { assert(a + b =~= a); } }
    pub broadcast proof fn lemma_sub_all(a: Seq<u8>, n: int)
        requires n == a.len(),
        ensures #[trigger] a.subrange(0, n) == a,
    { assert(a.subrange(0, n) =~= a); }
    pub broadcast proof fn lemma_sub_sub(a: Seq<u8>, i: int, j: int, k: int, l: int)
        requires 0 <= i <= j <= a.len(), 0 <= k <= l <= j - i,
        ensures #[trigger] a.subrange(i, j).subrange(k, l) == a.subrange(i + k, i + l),
    { assert(a.subrange(i, j).subrange(k, l) =~= a.subrange(i + k, i + l)); }
}
