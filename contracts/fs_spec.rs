// ---------------------------------------------------------------- where things are
/// a name of one's own in the root directory
pub open spec fn at(root: P, name: Seq<char>) -> P { root.push(Comp::Normal(name)) }
/// the directory of a bucket
pub open spec fn bdir(root: P, b: Seq<char>) -> P { at(root, b) }
/// what names an object: components that go down only
pub open spec fn key_ok(k: Seq<char>) -> bool {
    &&& forall|i: int| 0 <= i < comps(k).len() ==> (#[trigger] comps(k)[i]) is Normal || comps(k)[i] is Cur
    &&& exists|i: int| 0 <= i < comps(k).len() && (#[trigger] comps(k)[i]) is Normal
}
/// the file of an object
pub open spec fn opath(root: P, b: Seq<char>, k: Seq<char>) -> P { bdir(root, b) + no_cur(comps(k)) }
/// the file of the metadata of an object
pub open spec fn mname(b: Seq<char>, k: Seq<char>) -> Seq<char> { ".bucket-"@ + b64u(encode_utf8(b)) + ".object-"@ + b64u(encode_utf8(k)) + ".metadata.json"@ }
pub open spec fn mpath(root: P, b: Seq<char>, k: Seq<char>) -> P { at(root, mname(b, k)) }
/// the file of an uploaded part
pub open spec fn pname(id: Seq<char>, n: i64) -> Seq<char> { ".upload_id-"@ + id + ".part-"@ + n.dv() }
pub open spec fn ppath(root: P, id: Seq<char>, n: i64) -> P { at(root, pname(id, n)) }
pub open spec fn tname(id: Seq<char>) -> Seq<char> { ".tmp-"@ + id }
pub open spec fn is_tmp(root: P, p: P) -> bool { exists|id: Seq<char>| is_uuid(id) && p == at(root, #[trigger] tname(id)) }
// ---------------------------------------------------------------- these places differ
pub proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b),
    ensures a == b,
{ vstd::utf8::encode_utf8_decode_utf8(a); vstd::utf8::encode_utf8_decode_utf8(b); }
pub proof fn lemma_bucket(b: Seq<char>)
    requires bucket_name_ok(b),
    ensures plain(b), b[0] != '.', comps(b) == seq![Comp::Normal(b)], encode_utf8(b).len() <= 255,
{
    lemma_utf8_ascii(b);
    let e = encode_utf8(b);
    assert(ascii_bytes(e)) by { assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] < 128 by { assert(bucket_byte(e[i])); } }
    assert(e.len() == b.len());
    assert forall|i: int| 0 <= i < b.len() implies b[i] != '/' by { assert(e[i] == b[i] as u8); assert(bucket_byte(e[i])); }
    assert(e[0] == b[0] as u8);
    axiom_comps_plain(b);
}
pub proof fn lemma_plain_cat(a: Seq<char>, b: Seq<char>)
    requires a.len() > 2, !a.contains('/'), !b.contains('/'),
    ensures plain(a + b), !(a + b).contains('/'),
{
    let s = a + b;
    if s.contains('/') { let i = choose|i: int| 0 <= i < s.len() && s[i] == '/'; if i < a.len() { assert(a[i] == '/'); } else { assert(b[i - a.len()] == '/'); } }
}
pub proof fn lemma_mname(b: Seq<char>, k: Seq<char>)
    ensures plain(mname(b, k)), mname(b, k).len() > 2, mname(b, k)[0] == '.', mname(b, k)[1] == 'b',
{
    reveal_strlit(".bucket-"); reveal_strlit(".object-"); reveal_strlit(".metadata.json");
    axiom_b64u(encode_utf8(b)); axiom_b64u(encode_utf8(k));
    let x = b64u(encode_utf8(b)); let y = b64u(encode_utf8(k));
    assert(!x.contains('/')); assert(!y.contains('/'));
    assert(!".bucket-"@.contains('/')); assert(!".object-"@.contains('/')); assert(!".metadata.json"@.contains('/'));
    lemma_plain_cat(".bucket-"@, x);
    lemma_plain_cat(".bucket-"@ + x, ".object-"@);
    lemma_plain_cat(".bucket-"@ + x + ".object-"@, y);
    lemma_plain_cat(".bucket-"@ + x + ".object-"@ + y, ".metadata.json"@);
    axiom_comps_plain(mname(b, k));
}
/// different objects have different metadata files
pub proof fn lemma_mname_inj(b: Seq<char>, k: Seq<char>, c: Seq<char>, l: Seq<char>)
    requires mname(b, k) == mname(c, l),
    ensures b == c, k == l,
{
    reveal_strlit(".bucket-"); reveal_strlit(".object-"); reveal_strlit(".metadata.json");
    let (x, y, u, v) = (b64u(encode_utf8(b)), b64u(encode_utf8(k)), b64u(encode_utf8(c)), b64u(encode_utf8(l)));
    axiom_b64u(encode_utf8(b)); axiom_b64u(encode_utf8(k)); axiom_b64u(encode_utf8(c)); axiom_b64u(encode_utf8(l));
    let s = mname(b, k);
    // the '.' after the bucket
    assert(s[8 + x.len() as int] == '.' && s[8 + u.len() as int] == '.');
    if x.len() < u.len() { assert(s[8 + x.len() as int] == u[x.len() as int]); }
    if u.len() < x.len() { assert(s[8 + u.len() as int] == x[u.len() as int]); }
    assert(x =~= u) by { assert forall|i: int| 0 <= i < x.len() implies x[i] == u[i] by { assert(s[8 + i] == x[i]); assert(s[8 + i] == u[i]); } }
    assert(s.len() == 30 + x.len() + y.len()); assert(mname(c, l).len() == 30 + u.len() + v.len());
    assert(y =~= v) by { assert forall|i: int| 0 <= i < y.len() implies y[i] == v[i] by { assert(s[16 + x.len() as int + i] == y[i]); assert(s[16 + x.len() as int + i] == v[i]); } }
    axiom_b64u_inj(encode_utf8(b), encode_utf8(c)); axiom_b64u_inj(encode_utf8(k), encode_utf8(l));
    lemma_utf8_inj(b, c); lemma_utf8_inj(k, l);
}
pub proof fn lemma_dstr(n: nat)
    ensures dstr(n).len() > 0, forall|i: int| 0 <= i < dstr(n).len() ==> '0' <= #[trigger] dstr(n)[i] <= '9',
    decreases n,
{ if n >= 10 { lemma_dstr(n / 10); } }
pub proof fn lemma_dstr_inj(n: nat, m: nat)
    requires dstr(n) == dstr(m),
    ensures n == m,
    decreases n,
{
    lemma_dstr(n / 10); lemma_dstr(m / 10);
    if n < 10 { assert(dstr(n) == seq![(48 + n) as char]); assert(dstr(n).len() == 1 && dstr(n)[0] == (48 + n) as char); } else { assert(dstr(n) == dstr(n / 10).push((48 + n % 10) as char)); }
    if m < 10 { assert(dstr(m) == seq![(48 + m) as char]); assert(dstr(m).len() == 1 && dstr(m)[0] == (48 + m) as char); } else { assert(dstr(m) == dstr(m / 10).push((48 + m % 10) as char)); }
    assert(forall|a: nat, b: nat| a < 10 && b < 10 && #[trigger] ((48 + a) as char) == #[trigger] ((48 + b) as char) ==> a == b);
    if n < 10 && m < 10 { assert(dstr(n)[0] == dstr(m)[0]); assert((48 + n) as char == (48 + m) as char); }
    else if n >= 10 && m >= 10 {
        assert(dstr(n).drop_last() =~= dstr(n / 10)); assert(dstr(m).drop_last() =~= dstr(m / 10));
        assert(dstr(n).last() == (48 + n % 10) as char); assert(dstr(m).last() == (48 + m % 10) as char); assert((48 + n % 10) as char == (48 + m % 10) as char);
        lemma_dstr_inj(n / 10, m / 10);
    } else { assert(dstr(n).len() != dstr(m).len()); }
}
pub proof fn lemma_i64_text(n: i64)
    ensures !n.dv().contains('/'),
{ lemma_dstr(n as nat); lemma_dstr((-n) as nat); assert(forall|i: int| 0 <= i < n.dv().len() ==> n.dv()[i] != '/'); }
pub proof fn lemma_i64_inj(n: i64, m: i64)
    requires n.dv() == m.dv(),
    ensures n == m,
{
    if n >= 0 { lemma_dstr(n as nat); assert(n.dv()[0] != '-'); } else { lemma_dstr((-n) as nat); assert(n.dv()[0] == '-'); }
    if m >= 0 { lemma_dstr(m as nat); assert(m.dv()[0] != '-'); } else { lemma_dstr((-m) as nat); assert(m.dv()[0] == '-'); }
    if n < 0 {
        assert((seq!['-'] + dstr((-n) as nat)).subrange(1, n.dv().len() as int) =~= dstr((-n) as nat));
        assert((seq!['-'] + dstr((-m) as nat)).subrange(1, m.dv().len() as int) =~= dstr((-m) as nat));
        lemma_dstr_inj((-n) as nat, (-m) as nat);
    } else { lemma_dstr_inj(n as nat, m as nat); }
}
pub proof fn lemma_pname(id: Seq<char>, n: i64)
    requires is_uuid(id),
    ensures plain(pname(id, n)), pname(id, n).len() > 2, pname(id, n)[0] == '.', pname(id, n)[1] == 'u',
{
    reveal_strlit(".upload_id-"); reveal_strlit(".part-");
    axiom_uuid(id); lemma_i64_text(n);
    assert(!id.contains('/')); assert(!".upload_id-"@.contains('/')); assert(!".part-"@.contains('/'));
    lemma_plain_cat(".upload_id-"@, id);
    lemma_plain_cat(".upload_id-"@ + id, ".part-"@);
    lemma_plain_cat(".upload_id-"@ + id + ".part-"@, n.dv());
    axiom_comps_plain(pname(id, n));
}
/// different parts have different files
pub proof fn lemma_pname_inj(id: Seq<char>, n: i64, jd: Seq<char>, m: i64)
    requires is_uuid(id), is_uuid(jd), pname(id, n) == pname(jd, m),
    ensures id == jd, n == m,
{
    reveal_strlit(".upload_id-"); reveal_strlit(".part-");
    axiom_uuid(id); axiom_uuid(jd);
    let s = pname(id, n);
    assert(s[11 + id.len() as int] == '.' && s[11 + jd.len() as int] == '.');
    if id.len() < jd.len() { assert(s[11 + id.len() as int] == jd[id.len() as int]); }
    if jd.len() < id.len() { assert(s[11 + jd.len() as int] == id[jd.len() as int]); }
    assert(id =~= jd) by { assert forall|i: int| 0 <= i < id.len() implies id[i] == jd[i] by { assert(s[11 + i] == id[i]); assert(s[11 + i] == jd[i]); } }
    assert(s.subrange(17 + id.len() as int, s.len() as int) =~= n.dv());
    assert(s.subrange(17 + id.len() as int, s.len() as int) =~= m.dv());
    lemma_i64_inj(n, m);
}
pub proof fn lemma_tname(id: Seq<char>)
    requires is_uuid(id),
    ensures plain(tname(id)), tname(id).len() > 2, tname(id)[0] == '.', tname(id)[1] == 't', encode_utf8(tname(id)).len() <= 255,
{
    reveal_strlit(".tmp-");
    axiom_uuid(id);
    assert(!id.contains('/')); assert(!".tmp-"@.contains('/'));
    lemma_plain_cat(".tmp-"@, id);
    axiom_comps_plain(tname(id));
    lemma_utf8_ascii(tname(id));
    assert forall|i: int| 0 <= i < tname(id).len() implies (#[trigger] tname(id)[i] as u32) < 128 by { if i >= 5 { assert(tname(id)[i] == id[i - 5]); } }
}
pub proof fn lemma_at(root: P, n: Seq<char>)
    ensures below(at(root, n), root), at(root, n).len() == root.len() + 1, at(root, n)[root.len() as int] == Comp::Normal(n), at(root, n).drop_last() == root,
        at(root, n).subrange(root.len() as int, root.len() as int + 1) == seq![Comp::Normal(n)],
{
    let p = at(root, n);
    assert(p.subrange(0, root.len() as int) =~= root);
    assert(p.subrange(root.len() as int, p.len() as int) =~= seq![Comp::Normal(n)]);
    assert(p.drop_last() =~= root);
}
pub proof fn lemma_below(root: P, n: Seq<char>, q: P)
    requires all_normal(q), q.len() > 0,
    ensures
        below(at(root, n) + q, at(root, n)), below(at(root, n) + q, root),
        (at(root, n) + q)[root.len() as int] == Comp::Normal(n), (at(root, n) + q).last() is Normal,
        starts((at(root, n) + q).drop_last(), at(root, n)), below((at(root, n) + q).drop_last(), root),
{
    let d = at(root, n); let p = d + q;
    assert(p.subrange(0, d.len() as int) =~= d);
    assert(p.subrange(d.len() as int, p.len() as int) =~= q);
    assert(p.subrange(0, root.len() as int) =~= root);
    assert(p.last() == q[q.len() - 1]);
    let t = p.subrange(root.len() as int, p.len() as int);
    assert(t =~= seq![Comp::Normal(n)] + q);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) is Normal by { if i > 0 { assert(t[i] == q[i - 1]); } }
    let u = p.drop_last();
    assert(u.subrange(0, d.len() as int) =~= d);
    assert(u.subrange(0, root.len() as int) =~= root);
    let v = u.subrange(root.len() as int, u.len() as int);
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]) is Normal by { assert(v[i] == t[i]); }
}
pub proof fn lemma_key(k: Seq<char>)
    requires key_ok(k),
    ensures all_normal(no_cur(comps(k))), no_cur(comps(k)).len() > 0,
{ lemma_no_cur(comps(k)); }
/// the file of an object is below the directory of its bucket
pub proof fn lemma_opath(root: P, b: Seq<char>, k: Seq<char>)
    requires key_ok(k),
    ensures
        below(opath(root, b, k), bdir(root, b)), below(opath(root, b, k), root), below(bdir(root, b), root),
        opath(root, b, k).len() > root.len() + 1, opath(root, b, k)[root.len() as int] == Comp::Normal(b), opath(root, b, k).last() is Normal,
        all_normal(no_cur(comps(k))), no_cur(comps(k)).len() > 0,
        starts(opath(root, b, k).drop_last(), bdir(root, b)), below(opath(root, b, k).drop_last(), root),
        forall|q: P| #[trigger] dirs_to(opath(root, b, k).drop_last(), q, root) ==> dirs_to(opath(root, b, k), q, root),
        dirs_to(opath(root, b, k).drop_last(), opath(root, b, k).drop_last(), root), dirs_to(opath(root, b, k), opath(root, b, k), root),
{
    let p = opath(root, b, k); let u = p.drop_last();
    assert forall|q: P| #[trigger] dirs_to(u, q, root) implies dirs_to(p, q, root) by { assert(p.subrange(0, q.len() as int) =~= u.subrange(0, q.len() as int)); }
    assert(u.subrange(0, u.len() as int) =~= u); assert(p.subrange(0, p.len() as int) =~= p);
    lemma_key(k); lemma_at(root, b);
    let q = no_cur(comps(k));
    lemma_below(root, b, q);
}
/// the service's own files are not objects
pub proof fn lemma_service(root: P, b: Seq<char>, k: Seq<char>)
    requires bucket_name_ok(b),
    ensures
        forall|c: Seq<char>, l: Seq<char>| opath(root, b, k) != #[trigger] mpath(root, c, l),
        forall|id: Seq<char>, n: i64| is_uuid(id) ==> opath(root, b, k) != #[trigger] ppath(root, id, n),
        !is_tmp(root, opath(root, b, k)),
        forall|c: Seq<char>, l: Seq<char>| !is_tmp(root, #[trigger] mpath(root, c, l)),
        forall|id: Seq<char>, n: i64| is_uuid(id) ==> !is_tmp(root, #[trigger] ppath(root, id, n)),
        forall|c: Seq<char>, l: Seq<char>, id: Seq<char>, n: i64| is_uuid(id) ==> #[trigger] mpath(root, c, l) != #[trigger] ppath(root, id, n),
        forall|c: Seq<char>, l: Seq<char>| below(#[trigger] mpath(root, c, l), root),
        forall|id: Seq<char>, n: i64| is_uuid(id) ==> below(#[trigger] ppath(root, id, n), root),
        forall|id: Seq<char>| is_uuid(id) ==> below(at(root, #[trigger] tname(id)), root),
{
    lemma_bucket(b);
    let p = opath(root, b, k); let n = root.len() as int;
    assert(p[n] == Comp::Normal(b)) by { assert(bdir(root, b)[n] == Comp::Normal(b)); }
    assert forall|c: Seq<char>, l: Seq<char>| p != #[trigger] mpath(root, c, l) && below(mpath(root, c, l), root) && !is_tmp(root, mpath(root, c, l)) by {
        lemma_mname(c, l); lemma_at(root, mname(c, l));
        if is_tmp(root, mpath(root, c, l)) {
            let id = choose|id: Seq<char>| is_uuid(id) && mpath(root, c, l) == at(root, #[trigger] tname(id));
            lemma_tname(id); lemma_at(root, tname(id));
            assert(mname(c, l)[1] == tname(id)[1]);
        }
        assert(mpath(root, c, l)[n] == Comp::Normal(mname(c, l)));
        if p == mpath(root, c, l) { assert(b[0] == mname(c, l)[0]); }
    }
    assert forall|id: Seq<char>, m: i64| is_uuid(id) implies p != #[trigger] ppath(root, id, m) && below(ppath(root, id, m), root) && !is_tmp(root, ppath(root, id, m)) by {
        lemma_pname(id, m); lemma_at(root, pname(id, m));
        if is_tmp(root, ppath(root, id, m)) {
            let jd = choose|jd: Seq<char>| is_uuid(jd) && ppath(root, id, m) == at(root, #[trigger] tname(jd));
            lemma_tname(jd); lemma_at(root, tname(jd));
            assert(pname(id, m)[1] == tname(jd)[1]);
        }
        if p == ppath(root, id, m) { assert(b[0] == pname(id, m)[0]); }
    }
    assert forall|id: Seq<char>| is_uuid(id) implies below(at(root, #[trigger] tname(id)), root) by { lemma_at(root, tname(id)); }
    if is_tmp(root, p) {
        let id = choose|id: Seq<char>| is_uuid(id) && p == at(root, #[trigger] tname(id));
        lemma_tname(id); lemma_at(root, tname(id));
        assert(b[0] == tname(id)[0]);
    }
    assert forall|c: Seq<char>, l: Seq<char>, id: Seq<char>, m: i64| is_uuid(id) implies #[trigger] mpath(root, c, l) != #[trigger] ppath(root, id, m) by {
        lemma_mname(c, l); lemma_at(root, mname(c, l)); lemma_pname(id, m); lemma_at(root, pname(id, m));
        if mpath(root, c, l) == ppath(root, id, m) { assert(mname(c, l)[1] == pname(id, m)[1]); }
    }
}
/// what reading the metadata of an object gives
pub open spec fn meta_read(fs: Fs, m: P, r: Result<Option<HashMap<String, String>>, IoError>) -> bool {
    match r {
        Ok(None) => !fs.exists(m),
        Ok(Some(x)) => fs.files().contains_key(m) && parse_json(fs.files()[m]) == Some(x@),
        Err(_) => fs.exists(m) && !(healthy() && fs.files().contains_key(m) && parse_json(fs.files()[m]) is Some),
    }
}
/// the code of the error a storage operation ends with
pub open spec fn ecode<T, E>(r: S3StorageResult<T, E>) -> S3ErrorCode { match r { Err(S3StorageError::Other(e)) => e.code(), _ => arbitrary() } }
/// the bytes of an object a range selects; None: there are none
pub open spec fn selected(data: Seq<u8>, r: Option<Range>) -> Option<Seq<u8>> {
    let n = data.len();
    match r {
        None => Some(data),
        Some(Range::Normal { first, last }) => if first >= n { None } else {
            Some(data.subrange(first as int, match last { Some(l) => if l < n { l + 1 } else { n as int }, None => n as int }))
        },
        Some(Range::Suffix { last }) => Some(data.subrange(if last < n { n - last } else { 0 }, n as int)),
    }
}
/// a range the object has bytes for (a suffix of no bytes may be refused or answered with none)
pub open spec fn satisfiable(data: Seq<u8>, r: Option<Range>) -> bool { selected(data, r) is Some && !(r is Some && r.unwrap() is Suffix && r.unwrap()->Suffix_last == 0) }
/// the range a request asks for; None: it is malformed
pub open spec fn asked(h: Option<String>) -> Option<Option<Range>> { match h { None => Some(None), Some(s) => match range_of(s@) { Some(r) => Some(Some(r)), None => None } } }
/// the user metadata that is stored for an object
pub open spec fn meta_of(fs: Fs, m: P, o: Option<HashMap<String, String>>) -> bool {
    match o { Some(x) => fs.files().contains_key(m) && parse_json(fs.files()[m]) == Some(x@), None => !fs.exists(m) }
}
/// the metadata file, if there is one, can be read
pub open spec fn meta_fine(fs: Fs, m: P) -> bool { fs.exists(m) ==> fs.files().contains_key(m) && parse_json(fs.files()[m]) is Some }
// ---------------------------------------------------------------- what an operation may change
/// every file stays as it is, but those at s and unfinished (temporary) ones
pub open spec fn same_files(f: Fs, o: Fs, s: Set<P>) -> bool {
    &&& f.root() == o.root()
    &&& forall|p: P| !s.contains(p) && !is_tmp(o.root(), p) ==> #[trigger] f.files().contains_key(p) == o.files().contains_key(p)
    &&& forall|p: P| !s.contains(p) && !is_tmp(o.root(), p) && #[trigger] f.files().contains_key(p) ==> f.files()[p] == o.files()[p]
}
/// no directory but those above p is made, none is removed
pub open spec fn more_dirs(f: Fs, o: Fs, p: P) -> bool {
    &&& forall|q: P| #[trigger] o.dirs().contains(q) ==> f.dirs().contains(q)
    &&& forall|q: P| #[trigger] f.dirs().contains(q) ==> o.dirs().contains(q) || dirs_to(p, q, o.root())
}
/// a file holds this
pub open spec fn holds(fs: Fs, p: P, data: Seq<u8>) -> bool { fs.files().contains_key(p) && fs.files()[p] == data }
/// a file is as it was
pub open spec fn same_at(f: Fs, o: Fs, p: P) -> bool { f.files().contains_key(p) == o.files().contains_key(p) && (f.files().contains_key(p) ==> f.files()[p] == o.files()[p]) }
/// the user metadata of an object is what the request gave
pub open spec fn meta_stored(fs: Fs, m: P, o: Option<HashMap<String, String>>) -> bool {
    match o { Some(x) => holds(fs, m, json(x@)), None => !fs.files().contains_key(m) }
}
/// an object can be put here: nothing on the way is a file
pub open spec fn way_free(fs: Fs, p: P) -> bool {
    &&& !fs.dirs().contains(p)
    &&& forall|q: P| dirs_to(p.drop_last(), q, fs.root()) ==> !(#[trigger] fs.files().contains_key(q))
    &&& fits(p.subrange(fs.root().len() as int, p.len() as int))
}
/// no directory has the name of an unfinished file
pub open spec fn no_tmp_dirs(fs: Fs) -> bool { forall|q: P| #[trigger] fs.dirs().contains(q) ==> !is_tmp(fs.root(), q) }
pub proof fn lemma_tmp(root: P, t: P)
    requires is_tmp(root, t),
    ensures t.len() == root.len() + 1, t.drop_last() == root, below(t, root), fits(t.subrange(root.len() as int, t.len() as int)),
{
    let id = choose|id: Seq<char>| is_uuid(id) && t == at(root, #[trigger] tname(id));
    lemma_at(root, tname(id)); lemma_tname(id);
}
/// the directories an object lies in are its own: no file of the service is named so
pub proof fn lemma_way(root: P, b: Seq<char>, k: Seq<char>)
    requires bucket_name_ok(b), key_ok(k),
    ensures
        forall|q: P, c: Seq<char>, l: Seq<char>| #[trigger] dirs_to(opath(root, b, k), q, root) ==> q != #[trigger] mpath(root, c, l),
        forall|q: P| #[trigger] dirs_to(opath(root, b, k), q, root) ==> !is_tmp(root, q),
        forall|c: Seq<char>, l: Seq<char>| (#[trigger] mpath(root, c, l)).drop_last() == root,
        fits(opath(root, b, k).subrange(root.len() as int, opath(root, b, k).len() as int)) ==> fits(opath(root, b, k).drop_last().subrange(root.len() as int, opath(root, b, k).len() - 1)),
        !dirs_to(opath(root, b, k).drop_last(), opath(root, b, k), root),
        dirs_to(opath(root, b, k).drop_last(), bdir(root, b), root),
{
    let p = opath(root, b, k); let n = root.len() as int;
    lemma_opath(root, b, k); lemma_bucket(b);
    assert forall|q: P| #[trigger] dirs_to(p, q, root) implies q[n] == Comp::Normal(b) && !is_tmp(root, q) by {
        assert(q[n] == p.subrange(0, q.len() as int)[n]);
        if is_tmp(root, q) { let id = choose|id: Seq<char>| is_uuid(id) && q == at(root, #[trigger] tname(id)); lemma_tname(id); lemma_at(root, tname(id)); assert(b[0] == tname(id)[0]); }
    }
    assert forall|q: P, c: Seq<char>, l: Seq<char>| #[trigger] dirs_to(p, q, root) implies q != #[trigger] mpath(root, c, l) by {
        lemma_mname(c, l); lemma_at(root, mname(c, l));
        if q == mpath(root, c, l) { assert(b[0] == mname(c, l)[0]); }
    }
    assert forall|c: Seq<char>, l: Seq<char>| (#[trigger] mpath(root, c, l)).drop_last() == root by { lemma_at(root, mname(c, l)); }
    let s = p.subrange(n, p.len() as int); let t = p.drop_last().subrange(n, p.len() - 1);
    if fits(s) { assert forall|i: int| 0 <= i < t.len() implies match #[trigger] t[i] { Comp::Normal(s) => encode_utf8(s).len() <= 255, _ => true } by { assert(t[i] == s[i]); } }
    assert(p.drop_last().subrange(0, bdir(root, b).len() as int) =~= bdir(root, b));
}
pub open spec fn storage_class_ok(c: Option<String>) -> bool { match c { Some(s) => s@ == "STANDARD"@ || s@ == "REDUCED_REDUNDANCY"@, None => true } }
/// `dir/`: a directory object
pub open spec fn dir_key(k: String) -> bool { is_suffix(seq!['/'], k@) }
// ---------------------------------------------------------------- copies
/// the object a copy source names; None: it names none
pub open spec fn copy_source(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match url_decoded(s) { None => None, Some(t) => match split_source(t) { None => None, Some((b, k)) => if bucket_name_ok(b) && encode_utf8(k).len() <= 1024 { Some((b, k)) } else { None } } }
}
/// the user metadata at m is what was at n
pub open spec fn meta_copied(f: Fs, m: P, o: Fs, n: P) -> bool {
    if o.exists(n) { o.files().contains_key(n) && parse_json(o.files()[n]) is Some && f.files().contains_key(m) && parse_json(f.files()[m]) == parse_json(o.files()[n]) } else { !f.files().contains_key(m) }
}
// ---------------------------------------------------------------- deletion
/// no directory has the name of a metadata file
pub open spec fn no_meta_dirs(fs: Fs) -> bool { forall|b: Seq<char>, k: Seq<char>| !fs.dirs().contains(#[trigger] mpath(fs.root(), b, k)) }
/// something is stored under the key
pub open spec fn present(fs: Fs, b: Seq<char>, k: Seq<char>) -> bool { if is_suffix(seq!['/'], k) { fs.dirs().contains(opath(fs.root(), b, k)) } else { fs.files().contains_key(opath(fs.root(), b, k)) } }
pub open spec fn requested(all: Seq<ObjectIdentifier>, n: int, k: Seq<char>) -> bool { exists|j: int| 0 <= j < n && (#[trigger] all[j]).key@ == k }
pub open spec fn listed(o: Seq<(PathBuf, String)>, k: Seq<char>) -> bool { exists|x: int| 0 <= x < o.len() && (#[trigger] o[x]).1@ == k }
pub open spec fn reported(o: Option<Vec<DeletedObject>>, k: Seq<char>) -> bool { o is Some && exists|x: int| 0 <= x < o.unwrap()@.len() && os((#[trigger] o.unwrap()@[x]).key) == Some(k) }
/// the file belongs to a requested object
pub open spec fn named_file(root: P, b: Seq<char>, all: Seq<ObjectIdentifier>, p: P) -> bool {
    exists|j: int| 0 <= j < all.len() && (p == opath(root, b, (#[trigger] all[j]).key@) || p == mpath(root, b, all[j].key@))
}
/// only what belongs to the requested objects is gone, everything else is as it was
pub open spec fn only_gone(f: Fs, o: Fs, b: Seq<char>, all: Seq<ObjectIdentifier>) -> bool {
    &&& f.root() == o.root()
    &&& forall|p: P| #[trigger] f.files().contains_key(p) ==> o.files().contains_key(p) && f.files()[p] == o.files()[p]
    &&& forall|p: P| #[trigger] o.files().contains_key(p) && !named_file(o.root(), b, all, p) ==> f.files().contains_key(p)
    &&& forall|p: P| #[trigger] f.dirs().contains(p) ==> o.dirs().contains(p)
    &&& forall|p: P| #[trigger] o.dirs().contains(p) && !named_file(o.root(), b, all, p) ==> f.dirs().contains(p)
}
// ---------------------------------------------------------------- multipart uploads
pub open spec fn no_parts() -> Seq<CompletedPart> { Seq::empty() }
/// the parts a completion lists
pub open spec fn parts_of(o: Option<CompletedMultipartUpload>) -> Seq<CompletedPart> { match o { Some(m) => m.parts.flat(), None => no_parts() } }
/// 1, 2, 3, ...
pub open spec fn in_order(ps: Seq<CompletedPart>) -> bool { forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).part_number == Some((i + 1) as i64) }
/// the file of the i-th part (from 0)
pub open spec fn pp(root: P, id: Seq<char>, i: int) -> P { ppath(root, id, (i + 1) as i64) }
/// the first n parts, one after the other
pub open spec fn assembled(fs: Fs, id: Seq<char>, n: int) -> Seq<u8>
    decreases n,
{ if n <= 0 { Seq::empty() } else { assembled(fs, id, n - 1) + fs.files()[pp(fs.root(), id, n - 1)] } }
pub open spec fn have_parts(fs: Fs, id: Seq<char>, n: int) -> bool { forall|i: int| 0 <= i < n ==> fs.files().contains_key(#[trigger] pp(fs.root(), id, i)) }
pub open spec fn is_part(root: P, id: Seq<char>, n: int, p: P) -> bool { exists|i: int| 0 <= i < n && p == #[trigger] pp(root, id, i) }
/// what a completion may change: the object, its metadata, the parts of this upload, unfinished files
pub open spec fn same_but_parts(f: Fs, o: Fs, s: Set<P>, id: Seq<char>, n: int) -> bool {
    &&& f.root() == o.root()
    &&& forall|p: P| !s.contains(p) && !is_tmp(o.root(), p) && !is_part(o.root(), id, n, p) ==> #[trigger] f.files().contains_key(p) == o.files().contains_key(p)
    &&& forall|p: P| !s.contains(p) && !is_tmp(o.root(), p) && #[trigger] f.files().contains_key(p) ==> f.files()[p] == o.files()[p]
}
pub proof fn lemma_pp(root: P, id: Seq<char>, n: int)
    requires n <= i64::MAX, is_uuid(id),
    ensures
        forall|i: int| 0 <= i < n ==> below(#[trigger] pp(root, id, i), root),
        forall|i: int| 0 <= i < n ==> !is_tmp(root, #[trigger] pp(root, id, i)),
        forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j ==> #[trigger] pp(root, id, i) != #[trigger] pp(root, id, j),
        forall|i: int, c: Seq<char>, l: Seq<char>| 0 <= i < n ==> #[trigger] pp(root, id, i) != #[trigger] mpath(root, c, l),
{
    assert forall|i: int| 0 <= i < n implies below(#[trigger] pp(root, id, i), root) && !is_tmp(root, pp(root, id, i)) by { lemma_part_place(root, id, (i + 1) as i64); }
    assert forall|i: int, c: Seq<char>, l: Seq<char>| 0 <= i < n implies #[trigger] pp(root, id, i) != #[trigger] mpath(root, c, l) by { lemma_part_place(root, id, (i + 1) as i64); assert(mpath(root, c, l) != ppath(root, id, (i + 1) as i64)); }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies #[trigger] pp(root, id, i) != #[trigger] pp(root, id, j) by {
        lemma_at(root, pname(id, (i + 1) as i64)); lemma_at(root, pname(id, (j + 1) as i64));
        if pp(root, id, i) == pp(root, id, j) { lemma_pname_inj(id, (i + 1) as i64, id, (j + 1) as i64); }
    }
}
pub proof fn lemma_part_place(root: P, id: Seq<char>, m: i64)
    requires is_uuid(id),
    ensures
        below(ppath(root, id, m), root), !is_tmp(root, ppath(root, id, m)), ppath(root, id, m).drop_last() == root,
        forall|c: Seq<char>, l: Seq<char>| #[trigger] mpath(root, c, l) != ppath(root, id, m),
{
    lemma_pname(id, m); lemma_at(root, pname(id, m));
    if is_tmp(root, ppath(root, id, m)) {
        let jd = choose|jd: Seq<char>| is_uuid(jd) && ppath(root, id, m) == at(root, #[trigger] tname(jd));
        lemma_tname(jd); lemma_at(root, tname(jd));
        assert(pname(id, m)[1] == tname(jd)[1]);
    }
    assert forall|c: Seq<char>, l: Seq<char>| #[trigger] mpath(root, c, l) != ppath(root, id, m) by {
        lemma_mname(c, l); lemma_at(root, mname(c, l));
        if mpath(root, c, l) == ppath(root, id, m) { assert(mname(c, l)[1] == pname(id, m)[1]); }
    }
}
/// a completion that can be carried out, but for the parts
pub open spec fn mp_good(fs: Fs, i: CompleteMultipartUploadRequest) -> bool { mp_fine(i) && fs.exists(bdir(fs.root(), i.bucket@)) }
pub open spec fn mp_fine(i: CompleteMultipartUploadRequest) -> bool {
    i.multipart_upload is Some && key_ok(i.key@) && in_order(parts_of(i.multipart_upload)) && (parts_of(i.multipart_upload).len() > 0 ==> is_uuid(i.upload_id@))
}
pub open spec fn parts_exist(fs: Fs, id: Seq<char>, n: int) -> bool { forall|i: int| 0 <= i < n ==> fs.exists(#[trigger] pp(fs.root(), id, i)) }
pub open spec fn parts_gone(fs: Fs, id: Seq<char>, n: int) -> bool { forall|i: int| 0 <= i < n ==> !fs.files().contains_key(#[trigger] pp(fs.root(), id, i)) }
// ---------------------------------------------------------------- listings
/// what exists lies in directories, and no file is a directory
pub open spec fn tree(fs: Fs) -> bool {
    &&& forall|p: P| #[trigger] fs.exists(p) && below(p, fs.root()) && p.len() > fs.root().len() + 1 ==> fs.dirs().contains(p.drop_last())
    &&& forall|p: P| #[trigger] fs.files().contains_key(p) ==> !fs.dirs().contains(p)
}
/// the key of the object in file p of the bucket in b
pub open spec fn lkey(b: P, p: P) -> Seq<char> { path_text(p.subrange(b.len() as int, p.len() as int)) }
/// an object to be listed
pub open spec fn wanted(fs: Fs, b: P, pre: Option<Seq<char>>, p: P) -> bool {
    fs.files().contains_key(p) && below(p, b) && match pre { Some(s) => is_prefix(s, lkey(b, p)), None => true }
}
/// the entry of the object in file p
pub open spec fn entry_of(fs: Fs, b: P, p: P, o: Object) -> bool {
    os(o.key) == Some(lkey(b, p)) && o.size == Some(fs.files()[p].len() as i64) && os(o.last_modified) == Some(time_text(mtime_of(fs, p)))
}
/// entry by entry, the objects in src
pub open spec fn entries_for(fs: Fs, b: P, pre: Option<Seq<char>>, v: Seq<Object>, src: Seq<P>) -> bool {
    &&& v.len() == src.len()
    &&& src.no_duplicates()
    &&& forall|i: int| 0 <= i < src.len() ==> wanted(fs, b, pre, #[trigger] src[i]) && entry_of(fs, b, src[i], v[i])
}
impl VRank for Object { open spec fn rank(&self) -> Seq<char> { obj_key(*self) } }
pub open spec fn obj_key(o: Object) -> Seq<char> { match o.key { Some(s) => s@, None => Seq::empty() } }
pub open spec fn key_at(v: Seq<Object>, i: int) -> Seq<char> { obj_key(v[i]) }
pub open spec fn keys_sorted(v: Seq<Object>) -> bool { forall|i: int, j: int| 0 <= i <= j < v.len() ==> sle(#[trigger] key_at(v, i), #[trigger] key_at(v, j)) }
/// exactly the objects wanted, each once, in the order of their keys
pub open spec fn is_listing(fs: Fs, b: P, pre: Option<Seq<char>>, v: Seq<Object>) -> bool {
    &&& exists|src: Seq<P>| #[trigger] entries_for(fs, b, pre, v, src) && forall|p: P| wanted(fs, b, pre, p) ==> #[trigger] src.contains(p)
    &&& keys_sorted(v)
}
pub open spec fn pending(q: Seq<PathBuf>, x: P) -> bool { exists|k: int| 0 <= k < q.len() && starts(x, (#[trigger] q[k])@) }
pub open spec fn coming(fs: Fs, ents: Seq<P>, i: int, x: P) -> bool { exists|j: int| i <= j < ents.len() && fs.dirs().contains(#[trigger] ents[j]) && starts(x, ents[j]) }
/// the directories still to be read: each once, none read before, each found in one that was read (or is being read: its entries up to i)
pub open spec fn queue_ok(fs: Fs, b: P, q: Seq<PathBuf>, vis: Set<P>, ents: Seq<P>, i: int) -> bool {
    &&& forall|k: int| 0 <= k < q.len() ==> (#[trigger] q[k])@ == b || below(q[k]@, b) && fs.dirs().contains(q[k]@)
    &&& forall|k: int| 0 <= k < q.len() ==> !vis.contains((#[trigger] q[k])@)
    &&& forall|k: int, l: int| 0 <= k < l < q.len() ==> (#[trigger] q[k])@ != (#[trigger] q[l])@
    &&& forall|k: int| 0 <= k < q.len() ==> (#[trigger] q[k])@ == b || vis.contains(q[k]@.drop_last()) || exists|j: int| 0 <= j < i && q[k]@ == #[trigger] ents[j]
}
pub open spec fn vis_ok(fs: Fs, b: P, vis: Set<P>) -> bool {
    forall|d: P| #[trigger] vis.contains(d) ==> d == b || below(d, b) && fs.dirs().contains(d) && vis.contains(d.drop_last())
}
/// the walk before directory d is read up to its i-th entry
pub open spec fn walk(fs: Fs, b: P, pre: Option<Seq<char>>, objs: Seq<Object>, src: Seq<P>, q: Seq<PathBuf>, vis: Set<P>, d: Option<P>, ents: Seq<P>, i: int) -> bool {
    &&& entries_for(fs, b, pre, objs, src)
    &&& vis_ok(fs, b, vis)
    &&& queue_ok(fs, b, q, vis, ents, i)
    &&& forall|p: P| #[trigger] wanted(fs, b, pre, p) && vis.contains(p.drop_last()) ==> src.contains(p)
    &&& forall|j: int| 0 <= j < i && wanted(fs, b, pre, #[trigger] ents[j]) ==> src.contains(ents[j])
    &&& forall|k: int| 0 <= k < src.len() ==> vis.contains((#[trigger] src[k]).drop_last()) || exists|j: int| 0 <= j < i && src[k] == #[trigger] ents[j]
    &&& forall|p: P| #[trigger] fs.exists(p) && below(p, b) ==> vis.contains(p.drop_last()) || d == Some(p.drop_last()) || pending(q, p.drop_last()) || coming(fs, ents, i, p.drop_last())
    &&& match d {
        Some(x) => !vis.contains(x) && (x == b || below(x, b) && fs.dirs().contains(x) && vis.contains(x.drop_last())) && entries_of(fs, x, ents) && 0 <= i <= ents.len() && forall|k: int| 0 <= k < q.len() ==> (#[trigger] q[k])@ != x,
        None => i == 0 && ents.len() == 0,
    }
}
pub proof fn lemma_starts_trans(p: P, q: P, r: P)
    requires starts(p, q), starts(q, r),
    ensures starts(p, r),
{ assert(p.subrange(0, r.len() as int) =~= q.subrange(0, r.len() as int)) by { assert forall|i: int| 0 <= i < r.len() implies p[i] == q[i] by { assert(p.subrange(0, q.len() as int)[i] == q[i]); } } }
pub proof fn lemma_below_trans(p: P, q: P, r: P)
    requires below(p, q), below(q, r),
    ensures below(p, r),
{
    lemma_starts_trans(p, q, r);
    let t = p.subrange(r.len() as int, p.len() as int);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) is Normal by {
        let k = i + r.len();
        if k < q.len() { assert(p.subrange(0, q.len() as int)[k] == q[k]); assert(q.subrange(r.len() as int, q.len() as int)[i] is Normal); }
        else { assert(p.subrange(q.len() as int, p.len() as int)[k - q.len()] is Normal); }
    }
}
/// the parent of what lies below b is b or lies below it
pub proof fn lemma_parent(p: P, b: P)
    requires below(p, b),
    ensures p.drop_last() == b || below(p.drop_last(), b), starts(p.drop_last(), b), p.last() is Normal, starts(p, p.drop_last()), below(p, p.drop_last()),
{
    let u = p.drop_last();
    assert(u.subrange(0, b.len() as int) =~= b);
    assert(p.subrange(0, u.len() as int) =~= u);
    let t = p.subrange(b.len() as int, p.len() as int);
    assert(t[t.len() - 1] == p.last());
    assert(p.subrange(u.len() as int, p.len() as int) =~= seq![p.last()]);
    if u.len() == b.len() { assert(u =~= b); } else {
        let v = u.subrange(b.len() as int, u.len() as int);
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]) is Normal by { assert(v[i] == t[i]); }
    }
}
/// the directories above something that exists do, too
pub proof fn lemma_anc(fs: Fs, p: P, c: P)
    requires tree(fs), fs.exists(p), below(p, fs.root()), starts(p, c), fs.root().len() < c.len() < p.len(),
    ensures fs.dirs().contains(c),
    decreases p.len(),
{
    lemma_parent(p, fs.root());
    let u = p.drop_last();
    assert(u.subrange(0, c.len() as int) =~= p.subrange(0, c.len() as int));
    if u.len() > c.len() { assert(u != fs.root()); lemma_anc(fs, u, c); } else { assert(u =~= c); }
}
/// what lies below a directory lies below one of its entries
pub proof fn lemma_under(fs: Fs, b: P, p: P, d: P, ents: Seq<P>)
    requires tree(fs), below(b, fs.root()), fs.exists(p), below(p, b), d == b || below(d, b), entries_of(fs, d, ents), starts(p.drop_last(), d), p.drop_last() != d,
    ensures coming(fs, ents, 0, p.drop_last()),
{
    let u = p.drop_last();
    lemma_parent(p, b); lemma_below_trans(p, b, fs.root());
    if u.len() == d.len() { assert(u =~= d); }
    let c = u.subrange(0, d.len() as int + 1);
    assert(c.subrange(0, d.len() as int) =~= u.subrange(0, d.len() as int));
    assert(c.subrange(d.len() as int, c.len() as int) =~= seq![u[d.len() as int]]);
    assert(u[d.len() as int] == p[d.len() as int]);
    assert(b.len() <= d.len());
    assert(p.subrange(b.len() as int, p.len() as int)[d.len() - b.len()] is Normal);
    assert(below(c, d));
    assert(p.subrange(0, c.len() as int) =~= c);
    lemma_anc(fs, p, c);
    assert(fs.exists(c)); assert(ents.contains(c));
    let j = choose|j: int| 0 <= j < ents.len() && ents[j] == c;
    assert(fs.dirs().contains(ents[j]) && starts(u, ents[j]));
}
/// the directory taken out of the queue
pub open spec fn taken(q0: Seq<PathBuf>, q: Seq<PathBuf>, d: P) -> bool { exists|m: int| 0 <= m < q0.len() && (#[trigger] q0[m])@ == d && q == q0.remove(m) }
pub open spec fn next_dir(fs: Fs, q0: Seq<PathBuf>, q: Seq<PathBuf>, ents: Seq<P>) -> P { if q == q0.subrange(1, q0.len() as int) && entries_of(fs, q0[0]@, ents) { q0[0]@ } else { q0.last()@ } }
pub proof fn lemma_taken(fs: Fs, q0: Seq<PathBuf>, q: Seq<PathBuf>, ents: Seq<P>)
    requires q0.len() > 0, q == q0.subrange(1, q0.len() as int) && entries_of(fs, q0[0]@, ents) || q == q0.drop_last() && entries_of(fs, q0.last()@, ents),
    ensures taken(q0, q, next_dir(fs, q0, q, ents)), entries_of(fs, next_dir(fs, q0, q, ents), ents),
{
    assert(q0.subrange(1, q0.len() as int) =~= q0.remove(0));
    assert(q0.drop_last() =~= q0.remove(q0.len() - 1));
    if q == q0.subrange(1, q0.len() as int) && entries_of(fs, q0[0]@, ents) { assert(q0[0]@ == next_dir(fs, q0, q, ents)); } else { assert(q0[q0.len() - 1]@ == next_dir(fs, q0, q, ents)); }
}
pub proof fn lemma_queue(fs: Fs, b: P, pre: Option<Seq<char>>, objs: Seq<Object>, src: Seq<P>, q: Seq<PathBuf>, vis: Set<P>)
    requires walk(fs, b, pre, objs, src, q, vis, None, no_ps(), 0), below(b, fs.root()),
    ensures forall|k: int| 0 <= k < q.len() ==> below((#[trigger] q[k])@, fs.root()) && (q[k]@ == b || below(q[k]@, b) && fs.dirs().contains(q[k]@)),
{
    assert forall|k: int| 0 <= k < q.len() implies below((#[trigger] q[k])@, fs.root()) by { if q[k]@ != b { lemma_below_trans(q[k]@, b, fs.root()); } }
}
pub open spec fn without(q0: Seq<PathBuf>, q: Seq<PathBuf>, m: int) -> bool { 0 <= m < q0.len() && q.len() == q0.len() - 1 && forall|k: int| 0 <= k < q.len() ==> #[trigger] q[k] == (if k < m { q0[k] } else { q0[k + 1] }) }
pub proof fn lemma_pop_queue(fs: Fs, b: P, q0: Seq<PathBuf>, q: Seq<PathBuf>, m: int, vis: Set<P>, ents: Seq<P>)
    requires queue_ok(fs, b, q0, vis, no_ps(), 0), without(q0, q, m),
    ensures queue_ok(fs, b, q, vis, ents, 0), !vis.contains(q0[m]@), q0[m]@ == b || below(q0[m]@, b) && fs.dirs().contains(q0[m]@) && vis.contains(q0[m]@.drop_last()),
        forall|k: int| 0 <= k < q.len() ==> (#[trigger] q[k])@ != q0[m]@,
{
    assert(q0[m]@ == b || vis.contains(q0[m]@.drop_last()));
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k])@ == b || vis.contains(q[k]@.drop_last()) || exists|j: int| 0 <= j < 0 && q[k]@ == #[trigger] ents[j] by { let l = if k < m { k } else { k + 1 }; assert(q[k] == q0[l]); }
    assert forall|k: int, l: int| 0 <= k < l < q.len() implies (#[trigger] q[k])@ != (#[trigger] q[l])@ by { let k0 = if k < m { k } else { k + 1 }; let l0 = if l < m { l } else { l + 1 }; assert(q0[k0]@ != q0[l0]@); }
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k])@ != q0[m]@ by { let k0 = if k < m { k } else { k + 1 }; if k0 < m { assert(q0[k0]@ != q0[m]@); } else { assert(q0[m]@ != q0[k0]@); } }
}
/// a directory is taken from the queue and its entries are to be read
pub proof fn lemma_pop(fs: Fs, b: P, pre: Option<Seq<char>>, objs: Seq<Object>, src: Seq<P>, q0: Seq<PathBuf>, q: Seq<PathBuf>, d: P, vis: Set<P>, ents: Seq<P>)
    requires
        walk(fs, b, pre, objs, src, q0, vis, None, no_ps(), 0), tree(fs), below(b, fs.root()),
        taken(q0, q, d), entries_of(fs, d, ents),
    ensures walk(fs, b, pre, objs, src, q, vis, Some(d), ents, 0), below(d, fs.root()),
{
    let m = choose|m: int| 0 <= m < q0.len() && (#[trigger] q0[m])@ == d && q == q0.remove(m);
    assert(without(q0, q, m));
    lemma_pop_queue(fs, b, q0, q, m, vis, ents);
    if d != b { lemma_below_trans(d, b, fs.root()); }
    assert forall|p: P| #[trigger] fs.exists(p) && below(p, b) implies vis.contains(p.drop_last()) || Some(d) == Some(p.drop_last()) || pending(q, p.drop_last()) || coming(fs, ents, 0, p.drop_last()) by {
        let u = p.drop_last();
        if !vis.contains(u) && u != d {
            assert(!coming(fs, no_ps(), 0, u));
            assert(pending(q0, u));
            lemma_pop_cover(fs, b, p, q0, q, m, ents);
        }
    }
}
pub proof fn lemma_pop_cover(fs: Fs, b: P, p: P, q0: Seq<PathBuf>, q: Seq<PathBuf>, m: int, ents: Seq<P>)
    requires tree(fs), below(b, fs.root()), fs.exists(p), below(p, b), without(q0, q, m), entries_of(fs, q0[m]@, ents), pending(q0, p.drop_last()), p.drop_last() != q0[m]@, q0[m]@ == b || below(q0[m]@, b),
    ensures pending(q, p.drop_last()) || coming(fs, ents, 0, p.drop_last()),
{
    let u = p.drop_last();
    let k = choose|k: int| 0 <= k < q0.len() && starts(u, (#[trigger] q0[k])@);
    if k < m { assert(q[k] == q0[k]); assert(pending(q, u)); } else if k > m { assert(q[k - 1] == q0[k]); assert(pending(q, u)); } else { lemma_under(fs, b, p, q0[m]@, ents); }
}
pub open spec fn no_ps() -> Seq<P> { Seq::empty() }
pub open spec fn grown<T>(a: Seq<T>, z: Seq<T>) -> bool { a.len() == z.len() + 1 && forall|k: int| 0 <= k < z.len() ==> #[trigger] a[k] == z[k] }
/// a directory is queued, an object to be listed is listed
pub open spec fn entry_step(fs: Fs, b: P, pre: Option<Seq<char>>, o0: Seq<Object>, o1: Seq<Object>, q0: Seq<PathBuf>, q1: Seq<PathBuf>, e: P) -> bool {
    &&& if fs.dirs().contains(e) { grown(q1, q0) && q1[q0.len() as int]@ == e } else { q1 == q0 }
    &&& if wanted(fs, b, pre, e) { grown(o1, o0) && entry_of(fs, b, e, o1[o0.len() as int]) } else { o1 == o0 }
}
pub open spec fn src_step(fs: Fs, b: P, pre: Option<Seq<char>>, src: Seq<P>, e: P) -> Seq<P> { if wanted(fs, b, pre, e) { src.push(e) } else { src } }
/// one more entry of the directory is read
pub proof fn lemma_entry(fs: Fs, b: P, pre: Option<Seq<char>>, o0: Seq<Object>, o1: Seq<Object>, src0: Seq<P>, src1: Seq<P>, q0: Seq<PathBuf>, q1: Seq<PathBuf>, vis: Set<P>, d: P, ents: Seq<P>, i: int)
    requires
        walk(fs, b, pre, o0, src0, q0, vis, Some(d), ents, i), tree(fs), below(b, fs.root()), i < ents.len(),
        entry_step(fs, b, pre, o0, o1, q0, q1, ents[i]), src1 == src_step(fs, b, pre, src0, ents[i]),
    ensures walk(fs, b, pre, o1, src1, q1, vis, Some(d), ents, i + 1),
{
    let e = ents[i];
    assert(below(e, d));
    assert(d == b || below(d, b));
    if d != b { lemma_below_trans(e, d, b); }
    lemma_parent(e, d);
    assert(e.drop_last() =~= d);
    lemma_parent(e, b);
    // not seen before
    assert(!src0.contains(e)) by {
        if src0.contains(e) { let k = choose|k: int| 0 <= k < src0.len() && src0[k] == e; assert(!vis.contains(src0[k].drop_last())); let j = choose|j: int| 0 <= j < i && src0[k] == #[trigger] ents[j]; assert(ents[j] == ents[i]); }
    }
    assert forall|k: int| 0 <= k < q0.len() implies (#[trigger] q0[k])@ != e by {
        if q0[k]@ == e { assert(q0[k]@ != b); assert(!vis.contains(q0[k]@.drop_last())); let j = choose|j: int| 0 <= j < i && q0[k]@ == #[trigger] ents[j]; assert(ents[j] == ents[i]); }
    }
    assert(!vis.contains(e)) by { if vis.contains(e) { assert(vis.contains(e.drop_last())); } }
    if q1 != q0 { assert forall|k: int| 0 <= k < q1.len() implies (#[trigger] q1[k]) == (if k < q0.len() { q0[k] } else { q1.last() }) by {} }
    if o1 != o0 { assert forall|k: int| 0 <= k < o1.len() implies (#[trigger] o1[k]) == (if k < o0.len() { o0[k] } else { o1.last() }) by {} }
    assert forall|k: int| 0 <= k < q1.len() implies (#[trigger] q1[k])@ == b || vis.contains(q1[k]@.drop_last()) || exists|j: int| 0 <= j < i + 1 && q1[k]@ == #[trigger] ents[j] by {
        if k < q0.len() { if q0[k]@ != b && !vis.contains(q0[k]@.drop_last()) { let j = choose|j: int| 0 <= j < i && q0[k]@ == #[trigger] ents[j]; assert(ents[j] == q1[k]@); } } else { assert(q1[k]@ == ents[i]); }
    }
    assert(queue_ok(fs, b, q1, vis, ents, i + 1));
    assert forall|p: P| src0.contains(p) implies src1.contains(p) by { let k = choose|k: int| 0 <= k < src0.len() && src0[k] == p; assert(src1[k] == p); }
    if wanted(fs, b, pre, e) { assert(src1.last() == e); assert(src1[src1.len() - 1] == e); assert(src1.contains(e)); }
    assert(entries_for(fs, b, pre, o1, src1)) by {
        assert forall|k: int| 0 <= k < src1.len() implies wanted(fs, b, pre, #[trigger] src1[k]) && entry_of(fs, b, src1[k], o1[k]) by { if k < src0.len() { assert(src1[k] == src0[k]); assert(o1[k] == o0[k]); } }
        assert forall|k: int, l: int| 0 <= k < src1.len() && 0 <= l < src1.len() && k != l implies src1[k] != src1[l] by { if k < src0.len() { assert(src0.contains(src1[k]) || src0[k] == src1[k]); } if l < src0.len() { assert(src0[l] == src1[l]); } if k < src0.len() && l < src0.len() { assert(src0[k] != src0[l]); } }
    }
    assert forall|j: int| 0 <= j < i + 1 && wanted(fs, b, pre, #[trigger] ents[j]) implies src1.contains(ents[j]) by { if j < i { assert(src0.contains(ents[j])); } }
    assert forall|k: int| 0 <= k < src1.len() implies vis.contains((#[trigger] src1[k]).drop_last()) || exists|j: int| 0 <= j < i + 1 && src1[k] == #[trigger] ents[j] by {
        if k < src0.len() { assert(src1[k] == src0[k]); if !vis.contains(src0[k].drop_last()) { let j = choose|j: int| 0 <= j < i && src0[k] == #[trigger] ents[j]; assert(ents[j] == src1[k]); } } else { assert(src1[k] == ents[i]); }
    }
    assert forall|p: P| #[trigger] fs.exists(p) && below(p, b) implies vis.contains(p.drop_last()) || Some(d) == Some(p.drop_last()) || pending(q1, p.drop_last()) || coming(fs, ents, i + 1, p.drop_last()) by {
        let u = p.drop_last();
        if pending(q0, u) { let k = choose|k: int| 0 <= k < q0.len() && starts(u, (#[trigger] q0[k])@); assert(q1[k] == q0[k]); assert(pending(q1, u)); }
        else if coming(fs, ents, i, u) && !vis.contains(u) && u != d {
            let j = choose|j: int| i <= j < ents.len() && fs.dirs().contains(#[trigger] ents[j]) && starts(u, ents[j]);
            if j == i { assert(q1[q1.len() - 1]@ == e); assert(pending(q1, u)); } else { assert(coming(fs, ents, i + 1, u)); }
        }
    }
    assert forall|k: int| 0 <= k < q1.len() implies (#[trigger] q1[k])@ != d by {}
}
/// what is known of the next entry, and what its reading has to do
pub proof fn lemma_next(fs: Fs, b: P, pre: Option<Seq<char>>, o0: Seq<Object>, src0: Seq<P>, q0: Seq<PathBuf>, vis: Set<P>, d: P, ents: Seq<P>, i: int)
    requires walk(fs, b, pre, o0, src0, q0, vis, Some(d), ents, i), tree(fs), below(b, fs.root()), i < ents.len(),
    ensures
        below(ents[i], b), below(ents[i], fs.root()), fs.exists(ents[i]), !(fs.files().contains_key(ents[i]) && fs.dirs().contains(ents[i])),
        forall|o1: Seq<Object>, q1: Seq<PathBuf>| entry_step(fs, b, pre, o0, o1, q0, q1, ents[i]) ==> #[trigger] walk(fs, b, pre, o1, src_step(fs, b, pre, src0, ents[i]), q1, vis, Some(d), ents, i + 1),
{
    let e = ents[i];
    assert(below(e, d));
    if d != b { lemma_below_trans(e, d, b); }
    lemma_below_trans(e, b, fs.root());
    assert forall|o1: Seq<Object>, q1: Seq<PathBuf>| entry_step(fs, b, pre, o0, o1, q0, q1, ents[i]) implies #[trigger] walk(fs, b, pre, o1, src_step(fs, b, pre, src0, ents[i]), q1, vis, Some(d), ents, i + 1) by {
        lemma_entry(fs, b, pre, o0, o1, src0, src_step(fs, b, pre, src0, ents[i]), q0, q1, vis, d, ents, i);
    }
}
/// all entries of the directory are read
pub proof fn lemma_read(fs: Fs, b: P, pre: Option<Seq<char>>, o: Seq<Object>, src: Seq<P>, q: Seq<PathBuf>, vis: Set<P>, d: P, ents: Seq<P>)
    requires walk(fs, b, pre, o, src, q, vis, Some(d), ents, ents.len() as int), tree(fs), below(b, fs.root()),
    ensures walk(fs, b, pre, o, src, q, vis.insert(d), None, no_ps(), 0),
{
    let w = vis.insert(d);
    assert forall|j: int| 0 <= j < ents.len() implies (#[trigger] ents[j]).drop_last() == d by { lemma_parent(ents[j], d); assert(ents[j].drop_last() =~= d); }
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k])@ == b || w.contains(q[k]@.drop_last()) || exists|j: int| 0 <= j < 0 && q[k]@ == #[trigger] no_ps()[j] by {
        if q[k]@ != b && !vis.contains(q[k]@.drop_last()) { let j = choose|j: int| 0 <= j < ents.len() && q[k]@ == #[trigger] ents[j]; assert(ents[j].drop_last() == d); }
    }
    assert forall|k: int| 0 <= k < src.len() implies w.contains((#[trigger] src[k]).drop_last()) || exists|j: int| 0 <= j < 0 && src[k] == #[trigger] no_ps()[j] by {
        if !vis.contains(src[k].drop_last()) { let j = choose|j: int| 0 <= j < ents.len() && src[k] == #[trigger] ents[j]; assert(ents[j].drop_last() == d); }
    }
    assert forall|p: P| #[trigger] wanted(fs, b, pre, p) && w.contains(p.drop_last()) implies src.contains(p) by {
        if !vis.contains(p.drop_last()) {
            lemma_parent(p, b);
            assert(p.drop_last() == d && below(p, d) && fs.exists(p)); assert(ents.contains(p));
            let j = choose|j: int| 0 <= j < ents.len() && ents[j] == p; assert(wanted(fs, b, pre, ents[j]));
        }
    }
    assert forall|p: P| #[trigger] fs.exists(p) && below(p, b) implies w.contains(p.drop_last()) || None == Some(p.drop_last()) || pending(q, p.drop_last()) || coming(fs, no_ps(), 0, p.drop_last()) by {
        assert(!coming(fs, ents, ents.len() as int, p.drop_last()));
    }
}
/// every directory is read
pub proof fn lemma_walked(fs: Fs, b: P, pre: Option<Seq<char>>, o: Seq<Object>, src: Seq<P>, q: Seq<PathBuf>, vis: Set<P>)
    requires walk(fs, b, pre, o, src, q, vis, None, no_ps(), 0), q.len() == 0,
    ensures entries_for(fs, b, pre, o, src), forall|p: P| wanted(fs, b, pre, p) ==> #[trigger] src.contains(p),
{
    assert forall|p: P| wanted(fs, b, pre, p) implies #[trigger] src.contains(p) by { assert(fs.exists(p)); assert(!pending(q, p.drop_last())); assert(!coming(fs, no_ps(), 0, p.drop_last())); }
}
pub proof fn lemma_start(fs: Fs, b: P, pre: Option<Seq<char>>, q: Seq<PathBuf>)
    requires q.len() == 1, q[0]@ == b,
    ensures walk(fs, b, pre, Seq::empty(), no_ps(), q, Set::empty(), None, no_ps(), 0),
{
    assert forall|p: P| #[trigger] fs.exists(p) && below(p, b) implies pending(q, p.drop_last()) by { lemma_parent(p, b); assert(starts(p.drop_last(), q[0]@)); }
}
/// sorting keeps the entries
pub proof fn lemma_resort(fs: Fs, b: P, pre: Option<Seq<char>>, o: Seq<Object>, src: Seq<P>)
    requires entries_for(fs, b, pre, o, src), forall|p: P| wanted(fs, b, pre, p) ==> #[trigger] src.contains(p),
    ensures forall|v: Seq<Object>, perm: Seq<int>| #[trigger] permuted(v, o, perm) && keys_sorted(v) ==> is_listing(fs, b, pre, v),
{
    assert forall|v: Seq<Object>, perm: Seq<int>| #[trigger] permuted(v, o, perm) && keys_sorted(v) implies is_listing(fs, b, pre, v) by { lemma_resort1(fs, b, pre, o, src, v, perm); }
}
pub proof fn lemma_resort1(fs: Fs, b: P, pre: Option<Seq<char>>, o: Seq<Object>, src: Seq<P>, v: Seq<Object>, perm: Seq<int>)
    requires
        entries_for(fs, b, pre, o, src), forall|p: P| wanted(fs, b, pre, p) ==> #[trigger] src.contains(p), permuted(v, o, perm), keys_sorted(v),
    ensures is_listing(fs, b, pre, v),
{
    let s2 = Seq::new(v.len(), |i: int| src[perm[i]]);
    assert(entries_for(fs, b, pre, v, s2)) by {
        assert forall|i: int| 0 <= i < s2.len() implies wanted(fs, b, pre, #[trigger] s2[i]) && entry_of(fs, b, s2[i], v[i]) by { let k = perm[i]; assert(0 <= k < o.len()); assert(wanted(fs, b, pre, src[k]) && entry_of(fs, b, src[k], o[k])); }
        assert forall|i: int, j: int| 0 <= i < s2.len() && 0 <= j < s2.len() && i != j implies s2[i] != s2[j] by { assert(perm[i] != perm[j]); }
    }
    assert forall|p: P| wanted(fs, b, pre, p) implies #[trigger] s2.contains(p) by {
        assert(src.contains(p));
        let k = choose|k: int| 0 <= k < src.len() && src[k] == p;
        assert(perm.contains(k)); let i = choose|i: int| 0 <= i < perm.len() && perm[i] == k;
        assert(s2[i] == p);
    }
}

// ---------------------------------------------------------------- buckets
pub open spec fn is_bucket(fs: Fs, n: Seq<char>) -> bool { bucket_name_ok(n) && fs.dirs().contains(bdir(fs.root(), n)) }
pub open spec fn bname(v: Seq<Bucket>, i: int) -> Option<Seq<char>> { os(v[i].name) }
pub open spec fn named(v: Seq<Bucket>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] bname(v, i) == Some(n) }
/// every bucket once, and nothing else
pub open spec fn is_bucket_list(fs: Fs, v: Seq<Bucket>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] bname(v, i)) is Some && is_bucket(fs, bname(v, i).unwrap()) && v[i].creation_date is Some
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] bname(v, i) != #[trigger] bname(v, j)
    &&& forall|n: Seq<char>| is_bucket(fs, n) ==> #[trigger] named(v, n)
}
/// the buckets among the first i entries of the root directory
pub open spec fn bucket_walk(fs: Fs, v: Seq<Bucket>, ents: Seq<P>, i: int) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] bname(v, k)) is Some && is_bucket(fs, bname(v, k).unwrap()) && v[k].creation_date is Some
    &&& forall|k: int, l: int| 0 <= k < l < v.len() ==> #[trigger] bname(v, k) != #[trigger] bname(v, l)
    &&& forall|k: int| 0 <= k < v.len() ==> exists|j: int| 0 <= j < i && #[trigger] ents[j] == bdir(fs.root(), (#[trigger] bname(v, k)).unwrap())
    &&& forall|n: Seq<char>, j: int| 0 <= j < i && is_bucket(fs, n) && #[trigger] ents[j] == #[trigger] bdir(fs.root(), n) ==> named(v, n)
}
pub open spec fn bucket_step(fs: Fs, v0: Seq<Bucket>, v1: Seq<Bucket>, e: P) -> bool {
    if e.last() is Normal && is_bucket(fs, e.last()->Normal_0) { grown(v1, v0) && bname(v1, v0.len() as int) == Some(e.last()->Normal_0) && v1[v0.len() as int].creation_date is Some } else { v1 == v0 }
}
pub proof fn lemma_bucket_next(fs: Fs, v: Seq<Bucket>, ents: Seq<P>, i: int)
    requires entries_of(fs, fs.root(), ents), bucket_walk(fs, v, ents, i), 0 <= i < ents.len(),
    ensures
        below(ents[i], fs.root()), fs.exists(ents[i]), ents[i].last() is Normal, bdir(fs.root(), ents[i].last()->Normal_0) == ents[i],
        forall|w: Seq<Bucket>| bucket_step(fs, v, w, ents[i]) ==> #[trigger] bucket_walk(fs, w, ents, i + 1),
{
    let e = ents[i]; let r = fs.root();
    assert(below(e, r));
    lemma_parent(e, r);
    let m = e.last()->Normal_0;
    lemma_at(r, m);
    assert(e.subrange(0, r.len() as int) == r);
    assert(bdir(r, m) =~= e) by { assert forall|k: int| 0 <= k < e.len() implies bdir(r, m)[k] == e[k] by { if k < r.len() { assert(e.subrange(0, r.len() as int)[k] == e[k]); assert(at(r, m).subrange(0, r.len() as int)[k] == at(r, m)[k]); } } }
    assert forall|w: Seq<Bucket>| bucket_step(fs, v, w, e) implies #[trigger] bucket_walk(fs, w, ents, i + 1) by {
        assert forall|k: int| 0 <= k < v.len() implies bname(w, k) == #[trigger] bname(v, k) by { if w != v { assert(w[k] == v[k]); } }
        assert forall|k: int| 0 <= k < w.len() implies (#[trigger] bname(w, k)) is Some && is_bucket(fs, bname(w, k).unwrap()) && w[k].creation_date is Some by { if k < v.len() { assert(bname(v, k) is Some); if w != v { assert(w[k] == v[k]); } } }
        assert forall|k: int| 0 <= k < v.len() implies bdir(r, (#[trigger] bname(v, k)).unwrap()) != e by {
            let j = choose|j: int| 0 <= j < i && #[trigger] ents[j] == bdir(r, bname(v, k).unwrap()); assert(ents[j] != ents[i]);
        }
        assert forall|k: int, l: int| 0 <= k < l < w.len() implies #[trigger] bname(w, k) != #[trigger] bname(w, l) by { assert(bname(v, k) == bname(w, k)); if l < v.len() { assert(bname(v, l) == bname(w, l)); } else { assert(bname(w, l) == Some(m)); } }
        assert forall|k: int| 0 <= k < w.len() implies exists|j: int| 0 <= j < i + 1 && #[trigger] ents[j] == bdir(r, (#[trigger] bname(w, k)).unwrap()) by {
            if k < v.len() { let j = choose|j: int| 0 <= j < i && #[trigger] ents[j] == bdir(r, bname(v, k).unwrap()); assert(ents[j] == bdir(r, bname(w, k).unwrap())); } else { assert(ents[i] == bdir(r, bname(w, k).unwrap())); }
        }
        assert forall|n: Seq<char>, j: int| 0 <= j < i + 1 && is_bucket(fs, n) && #[trigger] ents[j] == #[trigger] bdir(r, n) implies named(w, n) by {
            if j < i { assert(named(v, n)); let k = choose|k: int| 0 <= k < v.len() && #[trigger] bname(v, k) == Some(n); assert(bname(w, k) == Some(n)); }
            else { lemma_at(r, n); assert(bdir(r, n)[r.len() as int] == e[r.len() as int]); assert(n == m); assert(bname(w, v.len() as int) == Some(n)); }
        }
    }
}
pub proof fn lemma_buckets(fs: Fs, v: Seq<Bucket>, ents: Seq<P>)
    requires entries_of(fs, fs.root(), ents), bucket_walk(fs, v, ents, ents.len() as int),
    ensures is_bucket_list(fs, v),
{
    assert forall|n: Seq<char>| is_bucket(fs, n) implies #[trigger] named(v, n) by {
        lemma_at(fs.root(), n);
        assert(fs.exists(bdir(fs.root(), n))); assert(ents.contains(bdir(fs.root(), n)));
        let j = choose|j: int| 0 <= j < ents.len() && ents[j] == bdir(fs.root(), n);
        assert(named(v, n));
    }
}
