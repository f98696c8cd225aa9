// ---------------------------------------------------------------- the sorted arrangement of a list of pairs is unique
/// insertion sort: the arrangement of the pairs in increasing order
pub open spec fn insert_pair(s: Seq<SPair>, p: SPair) -> Seq<SPair>
    decreases s.len(),
{
    if s.len() == 0 { seq![p] } else if ple(s.last(), p) { s.push(p) } else { insert_pair(s.drop_last(), p).push(s.last()) }
}
pub open spec fn sort_pairs(s: Seq<SPair>) -> Seq<SPair>
    decreases s.len(),
{
    if s.len() == 0 { s } else { insert_pair(sort_pairs(s.drop_last()), s.last()) }
}
pub proof fn lemma_ple_total(a: SPair, b: SPair)
    ensures ple(a, b) || ple(b, a),
{ lemma_sle_total(a.0, b.0); lemma_sle_total(a.1, b.1); }
pub proof fn lemma_ple_antisym(a: SPair, b: SPair)
    requires ple(a, b), ple(b, a),
    ensures a == b,
{
    if a.0 == b.0 { lemma_sle_antisym(a.1, b.1); } else { lemma_sle_antisym(a.0, b.0); }
}
pub proof fn lemma_ple_trans(a: SPair, b: SPair, c: SPair)
    requires ple(a, b), ple(b, c),
    ensures ple(a, c),
{
    if a.0 == b.0 && b.0 == c.0 { lemma_sle_trans(a.1, b.1, c.1); }
    else if a.0 != b.0 && b.0 != c.0 {
        lemma_sle_trans(a.0, b.0, c.0);
        if a.0 == c.0 { lemma_sle_antisym(a.0, b.0); }
    }
}
pub proof fn lemma_insert_pair(s: Seq<SPair>, p: SPair)
    requires pairs_sorted(s),
    ensures
        pairs_sorted(insert_pair(s, p)),
        insert_pair(s, p).len() == s.len() + 1,
        insert_pair(s, p).to_multiset() == s.to_multiset().insert(p),
        forall|x: SPair| #[trigger] insert_pair(s, p).contains(x) ==> s.contains(x) || x == p,
    decreases s.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() == 0 {
        assert(seq![p] =~= s.push(p));
        assert(seq![p].to_multiset() =~= s.to_multiset().insert(p));
    } else if ple(s.last(), p) {
        let q = s.push(p);
        assert forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() implies ple(q[i], q[j]) by {
            assert(q[i] == s[i]);
            if j < s.len() { assert(q[j] == s[j]); } else {
                if i < s.len() - 1 { assert(ple(s[i], s[s.len() - 1])); lemma_ple_trans(s[i], s.last(), p); }
            }
        }
        assert forall|x: SPair| #[trigger] q.contains(x) implies s.contains(x) || x == p by {
            let i = choose|i: int| 0 <= i < q.len() && q[i] == x;
            if i < s.len() { assert(s[i] == x); }
        }
        assert(q.to_multiset() =~= s.to_multiset().insert(p));
    } else {
        let t = s.drop_last();
        let l = s.last();
        assert(pairs_sorted(t)) by {
            assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies ple(t[i], t[j]) by { assert(t[i] == s[i] && t[j] == s[j]); }
        }
        lemma_insert_pair(t, p);
        let u = insert_pair(t, p);
        let q = u.push(l);
        lemma_ple_total(l, p);
        assert forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() implies ple(q[i], q[j]) by {
            assert(q[i] == u[i]);
            if j < u.len() { assert(q[j] == u[j]); } else {
                assert(u.contains(u[i]));
                if t.contains(u[i]) {
                    let k = choose|k: int| 0 <= k < t.len() && t[k] == u[i];
                    assert(s[k] == u[i] && s[s.len() - 1] == l);
                }
            }
        }
        assert forall|x: SPair| #[trigger] q.contains(x) implies s.contains(x) || x == p by {
            let i = choose|i: int| 0 <= i < q.len() && q[i] == x;
            if i < u.len() {
                assert(u[i] == x); assert(u.contains(x));
                if t.contains(x) { let k = choose|k: int| 0 <= k < t.len() && t[k] == x; assert(s[k] == x); }
            } else { assert(s[s.len() - 1] == x); }
        }
        assert(t.push(l) =~= s);
        assert(q.to_multiset() =~= u.to_multiset().insert(l));
        assert(s.to_multiset() =~= t.to_multiset().insert(l));
        assert(q.to_multiset() =~= s.to_multiset().insert(p));
    }
}
pub proof fn lemma_sort_pairs(s: Seq<SPair>)
    ensures pairs_sorted(sort_pairs(s)), sort_pairs(s).to_multiset() == s.to_multiset(), sort_pairs(s).len() == s.len(),
    decreases s.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 {
        lemma_sort_pairs(s.drop_last());
        lemma_insert_pair(sort_pairs(s.drop_last()), s.last());
        assert(s.drop_last().push(s.last()) =~= s);
        assert(s.to_multiset() =~= s.drop_last().to_multiset().insert(s.last()));
    }
}
/// two sorted lists with the same elements are equal
pub proof fn lemma_sorted_eq(a: Seq<SPair>, b: Seq<SPair>)
    requires pairs_sorted(a), pairs_sorted(b), a.to_multiset() == b.to_multiset(),
    ensures a == b,
    decreases a.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len());
    assert(b.len() == b.to_multiset().len());
    if a.len() == 0 { assert(a =~= b); } else {
        let (x, y) = (a.last(), b.last());
        assert(a[a.len() - 1] == x && b[b.len() - 1] == y);
        assert(b.to_multiset().count(x) > 0) by { assert(a.contains(x)); }
        assert(b.contains(x));
        assert(a.to_multiset().count(y) > 0) by { assert(b.contains(y)); }
        assert(a.contains(y));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
        lemma_ple_total(x, x);
        if i < b.len() - 1 { assert(ple(b[i], b[b.len() - 1])); }
        if j < a.len() - 1 { assert(ple(a[j], a[a.len() - 1])); }
        assert(ple(x, y) && ple(y, x)) by { lemma_ple_total(y, y); }
        lemma_ple_antisym(x, y);
        let (c, d) = (a.drop_last(), b.drop_last());
        assert(c.push(x) =~= a && d.push(y) =~= b);
        assert(a.to_multiset() =~= c.to_multiset().insert(x));
        assert(b.to_multiset() =~= d.to_multiset().insert(x));
        assert(c.to_multiset() =~= d.to_multiset()) by {
            assert(c.to_multiset() =~= a.to_multiset().remove(x));
            assert(d.to_multiset() =~= b.to_multiset().remove(x));
        }
        assert forall|k: int, l: int| #![trigger c[k], c[l]] 0 <= k < l < c.len() implies ple(c[k], c[l]) by { assert(c[k] == a[k] && c[l] == a[l]); }
        assert forall|k: int, l: int| #![trigger d[k], d[l]] 0 <= k < l < d.len() implies ple(d[k], d[l]) by { assert(d[k] == b[k] && d[l] == b[l]); }
        lemma_sorted_eq(c, d);
    }
}
