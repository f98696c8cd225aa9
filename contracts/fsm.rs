// ---------------------------------------------------------------- trusted: paths (std::path on Unix, path_absolutize), async_fs, md5, uuid, serde_json
pub enum Comp { Root, Cur, Parent, Normal(Seq<char>) }
pub type P = Seq<Comp>;
/// the components of a path text (std::path::Path::components)
pub uninterp spec fn comps(s: Seq<char>) -> P;
/// one name: not empty, no separator, neither `.` nor `..`
pub open spec fn plain(s: Seq<char>) -> bool {
    s.len() > 0 && !s.contains('/') && s != seq!['.'] && s != seq!['.', '.']
}
pub broadcast proof fn axiom_comps_plain(s: Seq<char>)
    requires plain(s),
    ensures #[trigger] comps(s) == seq![Comp::Normal(s)],
{ admit(); }
/// the text of a relative path without dots
pub uninterp spec fn path_text(p: P) -> Seq<char>;
pub broadcast proof fn axiom_path_text(p: P)
    requires all_normal(p), p.len() > 0,
    ensures comps(#[trigger] path_text(p)) == p,
{ admit(); }
pub open spec fn all_normal(p: P) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) is Normal }
/// without the `.` components
pub open spec fn no_cur(p: P) -> P
    decreases p.len(),
{ if p.len() == 0 { Seq::empty() } else if p.last() is Cur { no_cur(p.drop_last()) } else { no_cur(p.drop_last()).push(p.last()) } }
pub open spec fn starts(p: P, q: P) -> bool { q.len() <= p.len() && p.subrange(0, q.len() as int) == q }
/// strictly below a directory, by plain names
pub open spec fn below(p: P, q: P) -> bool { q.len() < p.len() && starts(p, q) && all_normal(p.subrange(q.len() as int, p.len() as int)) }
pub proof fn lemma_no_cur(p: P)
    ensures
        no_cur(p).len() <= p.len(),
        (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) is Normal || p[i] is Cur) ==> all_normal(no_cur(p)),
        all_normal(p) ==> no_cur(p) == p,
        (exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]) is Normal) ==> no_cur(p).len() > 0,
    decreases p.len(),
{
    if p.len() > 0 {
        let t = p.drop_last();
        lemma_no_cur(t);
        assert forall|i: int| 0 <= i < t.len() implies t[i] == p[i] by {}
        if forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) is Normal || p[i] is Cur {
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) is Normal || t[i] is Cur by { assert(t[i] == p[i]); }
        }
        if all_normal(p) {
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) is Normal by { assert(t[i] == p[i]); }
            assert(p.last() == p[p.len() - 1]);
            assert(no_cur(p) =~= p);
        }
        if exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]) is Normal {
            let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]) is Normal;
            if i < t.len() { assert(t[i] is Normal); }
        }
    }
}
#[verifier::external_body]
pub struct OsStr { _p: () }
impl View for OsStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct PrefixComponent { _p: () }
pub enum Component<'a> { Prefix(PrefixComponent), RootDir, CurDir, ParentDir, Normal(&'a OsStr) }
pub open spec fn compv(c: Component) -> Comp {
    match c { Component::Prefix(_) => Comp::Root, Component::RootDir => Comp::Root, Component::CurDir => Comp::Cur, Component::ParentDir => Comp::Parent, Component::Normal(s) => Comp::Normal(s@) }
}
pub enum IoErrorKind { InvalidInput, InvalidData, NotFound, Other, AlreadyExists, PermissionDenied, Unsupported, UnexpectedEof, AddrNotAvailable, BrokenPipe, Interrupted, WriteZero, TimedOut, WouldBlock }
#[verifier::external_body]
pub fn io_error_new<T>(k: IoErrorKind, t: T) -> IoError { unimplemented!() }
#[verifier::external_body]
pub struct SystemTime { _p: () }
#[verifier::external_body]
pub struct Duration { _p: () }
/// the RFC 3339 text of a time
pub uninterp spec fn time_text(t: SystemTime) -> Seq<char>;
#[verifier::external_body]
pub fn to_rfc3339(t: SystemTime) -> (r: String) ensures r@ == time_text(t) { unimplemented!() }
#[verifier::external_body]
pub fn count_duration<T>(t: T) -> (r: (T, Duration)) ensures r.0 == t { unimplemented!() }

#[verifier::external_body]
pub struct PathBuf { _p: () }
#[verifier::external_body]
pub struct Path { _p: () }
impl View for PathBuf { type V = P; uninterp spec fn view(&self) -> P; }
impl View for Path { type V = P; uninterp spec fn view(&self) -> P; }
/// AsRef<Path>
pub trait VPath { spec fn pv(&self) -> P; }
impl VPath for PathBuf { open spec fn pv(&self) -> P { self@ } }
impl VPath for Path { open spec fn pv(&self) -> P { self@ } }
impl<T: VPath + ?Sized> VPath for &T { open spec fn pv(&self) -> P { (**self).pv() } }
pub trait VStrLike { spec fn sl(&self) -> Seq<char>; }
impl VStrLike for str { open spec fn sl(&self) -> Seq<char> { self@ } }
impl VStrLike for String { open spec fn sl(&self) -> Seq<char> { self@ } }
impl<T: VStrLike + ?Sized> VStrLike for &T { open spec fn sl(&self) -> Seq<char> { (**self).sl() } }
pub open spec fn joined(a: P, b: P) -> P { if b.len() > 0 && b[0] is Root { b } else if a.len() == 0 { b } else { a + no_cur(b) } }
impl Path {
    #[verifier::external_body]
    pub fn join<Q: VPath>(&self, q: Q) -> (r: PathBuf) ensures r@ == joined(self@, q.pv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn components<'a>(&'a self) -> (r: VIt<Component<'a>>)
        ensures r.i() == 0, r.v().len() == self@.len(), forall|i: int| 0 <= i < r.v().len() ==> compv(#[trigger] r.v()[i]) == self@[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn absolutize_virtually<Q: VPath>(&self, root: Q) -> (r: Result<PathBuf, IoError>)
        ensures all_normal(self@) && self@.len() > 0 ==> r is Ok && r->Ok_0@ == root.pv() + self@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>)
        ensures match r { Some(q) => self@.len() > 0 && q@ == self@.drop_last(), None => true }, self@.len() > 1 && self@.last() is Normal ==> r is Some
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self, fs: &Fs) -> (r: bool) requires fs.visible(self@) ensures r == (fs.files().contains_key(self@) || fs.dirs().contains(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self, fs: &Fs) -> (r: bool) requires fs.visible(self@) ensures r == fs.dirs().contains(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self, fs: &Fs) -> (r: bool) requires fs.visible(self@) ensures r == fs.files().contains_key(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix<'a, Q: VPath>(&'a self, q: Q) -> (r: Result<&'a Path, StripPrefixError>)
        ensures match r { Ok(x) => starts(self@, q.pv()) && x@ == self@.subrange(q.pv().len() as int, self@.len() as int), Err(_) => !starts(self@, q.pv()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: CowStr) ensures r@ == path_text(self@) { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn join<Q: VPath>(&self, q: Q) -> (r: PathBuf) ensures r@ == joined(self@, q.pv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn components<'a>(&'a self) -> (r: VIt<Component<'a>>)
        ensures r.i() == 0, r.v().len() == self@.len(), forall|i: int| 0 <= i < r.v().len() ==> compv(#[trigger] r.v()[i]) == self@[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn absolutize_virtually<Q: VPath>(&self, root: Q) -> (r: Result<PathBuf, IoError>)
        ensures all_normal(self@) && self@.len() > 0 ==> r is Ok && r->Ok_0@ == root.pv() + self@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>)
        ensures match r { Some(q) => self@.len() > 0 && q@ == self@.drop_last(), None => true }, self@.len() > 1 && self@.last() is Normal ==> r is Some
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self, fs: &Fs) -> (r: bool) requires fs.visible(self@) ensures r == (fs.files().contains_key(self@) || fs.dirs().contains(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self, fs: &Fs) -> (r: bool) requires fs.visible(self@) ensures r == fs.dirs().contains(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self, fs: &Fs) -> (r: bool) requires fs.visible(self@) ensures r == fs.files().contains_key(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix<'a, Q: VPath>(&'a self, q: Q) -> (r: Result<&'a Path, StripPrefixError>)
        ensures match r { Ok(x) => starts(self@, q.pv()) && x@ == self@.subrange(q.pv().len() as int, self@.len() as int), Err(_) => !starts(self@, q.pv()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: CowStr) ensures r@ == path_text(self@) { unimplemented!() }
}
impl Path {
    #[verifier::external_body]
    pub fn new<'a, S: VStrLike + ?Sized>(s: &'a S) -> (r: &'a Path) ensures r@ == comps(s.sl()) { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn vclone(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct StripPrefixError { _p: () }
#[verifier::external_body]
pub struct CowStr { _p: () }
impl View for CowStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
/// From / Into between the types used here
pub trait VConv<T>: Sized { spec fn conv(self, t: T) -> bool; fn vconv(self) -> (r: T) ensures self.conv(r); }
impl VConv<PathBuf> for PathBuf { open spec fn conv(self, t: PathBuf) -> bool { t@ == self@ } fn vconv(self) -> (r: PathBuf) { self } }
impl VConv<String> for CowStr { open spec fn conv(self, t: String) -> bool { t@ == self@ }
    #[verifier::external_body]
    fn vconv(self) -> (r: String) { unimplemented!() } }
impl<E> VConv<S3StorageError<E>> for S3Error { open spec fn conv(self, t: S3StorageError<E>) -> bool { t == S3StorageError::<E>::Other(self) } fn vconv(self) -> (r: S3StorageError<E>) { S3StorageError::Other(self) } }

// ---------------------------------------------------------------- the file system: regular files and directories
#[verifier::external_body]
pub struct Fs { _p: () }
impl Fs {
    /// the directory everything has to stay in
    pub uninterp spec fn root(&self) -> P;
    pub uninterp spec fn files(&self) -> Map<P, Seq<u8>>;
    pub uninterp spec fn dirs(&self) -> Set<P>;
    pub open spec fn exists(&self, p: P) -> bool { self.files().contains_key(p) || self.dirs().contains(p) }
    pub open spec fn visible(&self, p: P) -> bool { below(p, self.root()) }
    /// nothing but the files at s changed
    pub open spec fn only(&self, o: Fs, s: Set<P>) -> bool {
        &&& self.root() == o.root()
        &&& forall|p: P| !s.contains(p) ==> (#[trigger] self.files().contains_key(p) == o.files().contains_key(p))
        &&& forall|p: P| !s.contains(p) && #[trigger] self.files().contains_key(p) ==> self.files()[p] == o.files()[p]
    }
}
/// the operating system carries out what it is asked, when that is possible
pub uninterp spec fn healthy() -> bool;
/// names the file system accepts
pub open spec fn fits(p: P) -> bool { forall|i: int| 0 <= i < p.len() ==> match #[trigger] p[i] { Comp::Normal(s) => encode_utf8(s).len() <= 255, _ => true } }
impl Fs {
    pub open spec fn isdir(&self, p: P) -> bool { p == self.root() || self.dirs().contains(p) }
    /// a file can be put here
    pub open spec fn room(&self, p: P) -> bool { p.len() > 0 && self.isdir(p.drop_last()) && !self.dirs().contains(p) && fits(p.subrange(self.root().len() as int, p.len() as int)) }
}
#[verifier::external_body]
pub struct Meta { _p: () }
impl Meta {
    pub uninterp spec fn size(&self) -> nat;
    pub uninterp spec fn mtime(&self) -> SystemTime;
    #[verifier::external_body]
    pub fn len(&self) -> (r: u64) ensures r == self.size(), r <= i64::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn modified(&self) -> (r: Result<SystemTime, IoError>) ensures r is Ok ==> r->Ok_0 == self.mtime(), healthy() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn created(&self) -> (r: Result<SystemTime, IoError>) ensures healthy() ==> r is Ok { unimplemented!() }
}
#[verifier::external_body]
pub fn fs_read<Q: VPath>(p: Q, fs: &Fs) -> (r: Result<Vec<u8>, IoError>)
    requires fs.visible(p.pv())
    ensures match r { Ok(v) => fs.files().contains_key(p.pv()) && v@ == fs.files()[p.pv()], Err(_) => !(healthy() && fs.files().contains_key(p.pv())) }
{ unimplemented!() }
#[verifier::external_body]
pub fn fs_write<Q: VPath>(p: Q, data: &Vec<u8>, fs: &mut Fs) -> (r: Result<(), IoError>)
    requires old(fs).visible(p.pv())
    ensures
        final(fs).only(*old(fs), set![p.pv()]), final(fs).dirs() == old(fs).dirs(),
        r is Ok ==> final(fs).files() == old(fs).files().insert(p.pv(), data@) && !old(fs).dirs().contains(p.pv()),
        healthy() && old(fs).room(p.pv()) ==> r is Ok,
{ unimplemented!() }
#[verifier::external_body]
pub fn fs_remove_file<Q: VPath>(p: Q, fs: &mut Fs) -> (r: Result<(), IoError>)
    requires old(fs).visible(p.pv())
    ensures
        final(fs).root() == old(fs).root(), final(fs).dirs() == old(fs).dirs(),
        final(fs).files() == (if r is Ok { old(fs).files().remove(p.pv()) } else { old(fs).files() }),
        r is Ok ==> old(fs).files().contains_key(p.pv()),
        healthy() && old(fs).files().contains_key(p.pv()) ==> r is Ok,
{ unimplemented!() }
#[verifier::external_body]
pub fn fs_remove_dir<Q: VPath>(p: Q, fs: &mut Fs) -> (r: Result<(), IoError>)
    requires old(fs).visible(p.pv())
    ensures
        final(fs).root() == old(fs).root(), final(fs).files() == old(fs).files(),
        final(fs).dirs() == (if r is Ok { old(fs).dirs().remove(p.pv()) } else { old(fs).dirs() }),
        r is Ok ==> forall|q: P| #[trigger] old(fs).files().contains_key(q) ==> !below(q, p.pv()),
        healthy() && old(fs).dirs().contains(p.pv()) && (forall|q: P| q.len() == p.pv().len() + 1 && below(q, p.pv()) ==> !(#[trigger] old(fs).exists(q))) ==> r is Ok,
{ unimplemented!() }
#[verifier::external_body]
pub fn fs_remove_dir_all<Q: VPath>(p: Q, fs: &mut Fs) -> (r: Result<(), IoError>)
    requires old(fs).visible(p.pv())
    ensures
        final(fs).root() == old(fs).root(),
        forall|q: P| #[trigger] final(fs).files().contains_key(q) ==> old(fs).files().contains_key(q) && final(fs).files()[q] == old(fs).files()[q],
        forall|q: P| #[trigger] final(fs).dirs().contains(q) ==> old(fs).dirs().contains(q),
        forall|q: P| #[trigger] old(fs).files().contains_key(q) && !starts(q, p.pv()) ==> final(fs).files().contains_key(q),
        forall|q: P| #[trigger] old(fs).dirs().contains(q) && !starts(q, p.pv()) ==> final(fs).dirs().contains(q),
        r is Ok ==> forall|q: P| starts(q, p.pv()) ==> !(#[trigger] final(fs).files().contains_key(q)),
        r is Ok ==> forall|q: P| starts(q, p.pv()) ==> !(#[trigger] final(fs).dirs().contains(q)),
        healthy() && old(fs).dirs().contains(p.pv()) ==> r is Ok,
{ unimplemented!() }
#[verifier::external_body]
pub fn fs_create_dir<Q: VPath>(p: Q, fs: &mut Fs) -> (r: Result<(), IoError>)
    requires old(fs).visible(p.pv())
    ensures
        final(fs).root() == old(fs).root(), final(fs).files() == old(fs).files(),
        final(fs).dirs() == (if r is Ok { old(fs).dirs().insert(p.pv()) } else { old(fs).dirs() }),
        r is Ok ==> !old(fs).exists(p.pv()),
        healthy() && !old(fs).exists(p.pv()) && old(fs).room(p.pv()) ==> r is Ok,
{ unimplemented!() }
/// the directory and those it lies in, up to the root
pub open spec fn dirs_to(p: P, q: P, root: P) -> bool { q.len() > root.len() && starts(p, q) }
#[verifier::external_body]
pub fn fs_create_dir_all<Q: VPath>(p: Q, fs: &mut Fs) -> (r: Result<(), IoError>)
    requires old(fs).visible(p.pv())
    ensures
        final(fs).root() == old(fs).root(), final(fs).files() == old(fs).files(),
        forall|q: P| #[trigger] final(fs).dirs().contains(q) ==> old(fs).dirs().contains(q) || dirs_to(p.pv(), q, old(fs).root()),
        forall|q: P| #[trigger] old(fs).dirs().contains(q) ==> final(fs).dirs().contains(q),
        r is Ok ==> forall|q: P| dirs_to(p.pv(), q, old(fs).root()) ==> #[trigger] final(fs).dirs().contains(q),
        healthy() && fits(p.pv().subrange(old(fs).root().len() as int, p.pv().len() as int)) && (forall|q: P| dirs_to(p.pv(), q, old(fs).root()) ==> !(#[trigger] old(fs).files().contains_key(q))) ==> r is Ok,
{ unimplemented!() }
/// copying a file onto itself would empty it
#[verifier::external_body]
pub fn fs_copy<Q: VPath, R: VPath>(a: Q, b: R, fs: &mut Fs) -> (r: Result<u64, IoError>)
    requires old(fs).visible(a.pv()), old(fs).visible(b.pv())
    ensures
        final(fs).only(*old(fs), set![b.pv()]), final(fs).dirs() == old(fs).dirs(),
        r is Ok && a.pv() != b.pv() ==> old(fs).files().contains_key(a.pv()) && !old(fs).dirs().contains(b.pv()) && final(fs).files() == old(fs).files().insert(b.pv(), old(fs).files()[a.pv()]),
        healthy() && a.pv() != b.pv() && old(fs).files().contains_key(a.pv()) && old(fs).room(b.pv()) ==> r is Ok,
{ unimplemented!() }
#[verifier::external_body]
pub fn fs_rename<Q: VPath, R: VPath>(a: Q, b: R, fs: &mut Fs) -> (r: Result<(), IoError>)
    requires old(fs).visible(a.pv()), old(fs).visible(b.pv()), !old(fs).dirs().contains(a.pv())
    ensures
        final(fs).root() == old(fs).root(), final(fs).dirs() == old(fs).dirs(),
        r is Err ==> final(fs).files() == old(fs).files(),
        r is Ok ==> old(fs).files().contains_key(a.pv()) && !old(fs).dirs().contains(b.pv())
            && final(fs).files() == (if a.pv() == b.pv() { old(fs).files() } else { old(fs).files().remove(a.pv()).insert(b.pv(), old(fs).files()[a.pv()]) }),
        healthy() && old(fs).files().contains_key(a.pv()) && old(fs).room(b.pv()) ==> r is Ok,
{ unimplemented!() }
pub uninterp spec fn mtime_of(fs: Fs, p: P) -> SystemTime;
#[verifier::external_body]
pub fn fs_metadata<Q: VPath>(p: Q, fs: &Fs) -> (r: Result<Meta, IoError>)
    requires fs.visible(p.pv())
    ensures r is Ok ==> fs.exists(p.pv()) && (fs.files().contains_key(p.pv()) ==> r->Ok_0.size() == fs.files()[p.pv()].len()) && r->Ok_0.mtime() == mtime_of(*fs, p.pv()), healthy() && fs.exists(p.pv()) ==> r is Ok
{ unimplemented!() }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
/// a file being read: where it is, what it holds, how far it has been read
#[verifier::external_body]
pub struct File { _p: () }
impl File {
    pub uninterp spec fn path(&self) -> P;
    pub uninterp spec fn is_reg(&self) -> bool;
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    pub uninterp spec fn mtime(&self) -> SystemTime;
    #[verifier::external_body]
    pub fn open<Q: VPath>(p: Q, fs: &Fs) -> (r: Result<File, IoError>)
        requires fs.visible(p.pv())
        ensures match r {
            Ok(f) => fs.exists(p.pv()) && f.path() == p.pv() && f.pos() == 0 && f.is_reg() == fs.files().contains_key(p.pv()) && (f.is_reg() ==> f.data() == fs.files()[p.pv()]) && f.data().len() <= i64::MAX && f.mtime() == mtime_of(*fs, p.pv()),
            Err(_) => !(healthy() && fs.exists(p.pv())),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create<Q: VPath>(p: Q, fs: &mut Fs) -> (r: Result<File, IoError>)
        requires old(fs).visible(p.pv())
        ensures
            final(fs).only(*old(fs), set![p.pv()]), final(fs).dirs() == old(fs).dirs(),
            match r {
                Ok(f) => f.path() == p.pv() && f.data().len() == 0 && f.pos() == 0 && final(fs).files() == old(fs).files().insert(p.pv(), Seq::empty()) && !old(fs).dirs().contains(p.pv()),
                Err(_) => !(healthy() && old(fs).room(p.pv())),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self, fs: &Fs) -> (r: Result<Meta, IoError>)
        ensures healthy() ==> r is Ok, r is Ok ==> (self.is_reg() ==> r->Ok_0.size() == self.data().len()) && r->Ok_0.mtime() == self.mtime()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, s: SeekFrom) -> (r: Result<u64, IoError>)
        ensures
            final(self).path() == old(self).path(), final(self).data() == old(self).data(), final(self).is_reg() == old(self).is_reg(), final(self).mtime() == old(self).mtime(),
            r is Ok && old(self).is_reg() ==> final(self).pos() == (match s { SeekFrom::Start(n) => n as int, SeekFrom::End(k) => old(self).data().len() + k, SeekFrom::Current(k) => old(self).pos() + k }),
            healthy() && old(self).is_reg() && 0 <= (match s { SeekFrom::Start(n) => n as int, SeekFrom::End(k) => old(self).data().len() + k, SeekFrom::Current(k) => old(self).pos() + k }) <= i64::MAX ==> r is Ok,
    { unimplemented!() }
    /// some of the bytes that follow, none only at the end of the file (or for an empty buffer)
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        ensures
            final(self).path() == old(self).path(), final(self).data() == old(self).data(), final(self).is_reg() == old(self).is_reg(),
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> old(self).is_reg(),
            healthy() && old(self).is_reg() ==> r is Ok,
            r is Ok && 0 <= old(self).pos() <= old(self).data().len() ==> ({
                let n = r->Ok_0 as int;
                &&& n <= old(buf)@.len()
                &&& old(self).pos() + n <= old(self).data().len()
                &&& final(self).pos() == old(self).pos() + n
                &&& final(buf)@.subrange(0, n) == old(self).data().subrange(old(self).pos(), old(self).pos() + n)
                &&& (n == 0 ==> old(buf)@.len() == 0 || old(self).pos() == old(self).data().len())
            }),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct BufWriter { _p: () }
impl BufWriter {
    pub uninterp spec fn path(&self) -> P;
    /// everything written so far
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(f: File) -> (r: BufWriter) ensures r.path() == f.path(), r.data() == f.data() { unimplemented!() }
    /// what was written is in the file only now
    #[verifier::external_body]
    pub fn flush(&mut self, fs: &mut Fs) -> (r: Result<(), IoError>)
        ensures
            final(self).path() == old(self).path(), final(self).data() == old(self).data(),
            final(fs).only(*old(fs), set![old(self).path()]), final(fs).dirs() == old(fs).dirs(),
            final(fs).files().contains_key(old(self).path()) == old(fs).files().contains_key(old(self).path()),
            r is Ok ==> final(fs).files() == old(fs).files().insert(old(self).path(), old(self).data()),
            healthy() ==> r is Ok,
    { unimplemented!() }
}
/// futures::io::copy_buf of a byte slice: written and flushed
#[verifier::external_body]
pub fn io_copy_buf(b: &[u8], w: &mut BufWriter, fs: &mut Fs) -> (r: Result<u64, IoError>)
    ensures
        final(w).path() == old(w).path(),
        final(fs).only(*old(fs), set![old(w).path()]), final(fs).dirs() == old(fs).dirs(),
        final(fs).files().contains_key(old(w).path()) == old(fs).files().contains_key(old(w).path()),
        r is Ok ==> r->Ok_0 == b@.len() && final(w).data() == old(w).data() + b@ && final(fs).files() == old(fs).files().insert(old(w).path(), final(w).data()),
        r is Ok ==> b@.len() <= usize::MAX,
        healthy() ==> r is Ok,
{ unimplemented!() }
/// futures::io::copy of the rest of a file: written and flushed
#[verifier::external_body]
pub fn io_copy(f: &mut File, w: &mut BufWriter, fs: &mut Fs) -> (r: Result<u64, IoError>)
    ensures
        final(w).path() == old(w).path(),
        final(fs).only(*old(fs), set![old(w).path()]), final(fs).dirs() == old(fs).dirs(),
        final(fs).files().contains_key(old(w).path()) == old(fs).files().contains_key(old(w).path()),
        r is Ok ==> old(f).is_reg(),
        healthy() && old(f).is_reg() ==> r is Ok,
        r is Ok && 0 <= old(f).pos() <= old(f).data().len() ==> final(w).data() == old(w).data() + old(f).data().subrange(old(f).pos(), old(f).data().len() as int) && final(fs).files() == old(fs).files().insert(old(w).path(), final(w).data()),
{ unimplemented!() }
/// one entry of a directory
#[verifier::external_body]
pub struct DirEntry { _p: () }
#[verifier::external_body]
pub struct FileType { _p: () }
impl FileType {
    pub uninterp spec fn dir(&self) -> bool;
    #[verifier::external_body]
    pub fn is_dir(&self, fs: &Fs) -> (r: bool) ensures r == self.dir() { unimplemented!() }
}
impl DirEntry {
    pub uninterp spec fn p(&self) -> P;
    #[verifier::external_body]
    pub fn path(&self) -> (r: PathBuf) ensures r@ == self.p() { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: OsString) ensures self.p().last() == Comp::Normal(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_type(&self, fs: &Fs) -> (r: Result<FileType, IoError>)
        requires fs.visible(self.p()), fs.exists(self.p())
        ensures healthy() ==> r is Ok, r is Ok ==> r->Ok_0.dir() == fs.dirs().contains(self.p())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self, fs: &Fs) -> (r: Result<Meta, IoError>)
        requires fs.visible(self.p())
        ensures healthy() ==> r is Ok, r is Ok ==> (fs.files().contains_key(self.p()) ==> r->Ok_0.size() == fs.files()[self.p()].len()) && r->Ok_0.mtime() == mtime_of(*fs, self.p())
    { unimplemented!() }
}
#[verifier::external_body]
pub struct OsString { _p: () }
impl View for OsString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl OsString {
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: CowStr) ensures r@ == self@ { unimplemented!() }
}
/// the entries of a directory, each once
#[verifier::external_body]
pub struct ReadDir { _p: () }
pub open spec fn entries_of(fs: Fs, p: P, s: Seq<P>) -> bool {
    &&& s.no_duplicates()
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == p.len() + 1 && below(s[i], p) && fs.exists(s[i])
    &&& forall|q: P| #[trigger] fs.exists(q) && q.len() == p.len() + 1 && below(q, p) ==> s.contains(q)
}
impl ReadDir {
    pub uninterp spec fn v(&self) -> Seq<P>;
    pub uninterp spec fn i(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<DirEntry, IoError>>)
        ensures
            final(self).v() == old(self).v(), 0 <= old(self).i() <= old(self).v().len(),
            match r {
                None => old(self).i() == old(self).v().len() && final(self).i() == old(self).i(),
                Some(Ok(e)) => old(self).i() < old(self).v().len() && e.p() == old(self).v()[old(self).i()] && final(self).i() == old(self).i() + 1,
                Some(Err(_)) => !healthy(),
            }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn fs_read_dir<Q: VPath>(p: Q, fs: &Fs) -> (r: Result<ReadDir, IoError>)
    requires p.pv() == fs.root() || fs.visible(p.pv())
    ensures r is Ok ==> fs.isdir(p.pv()) && r->Ok_0.i() == 0 && entries_of(*fs, p.pv(), r->Ok_0.v()), healthy() && fs.isdir(p.pv()) ==> r is Ok
{ unimplemented!() }

// ---------------------------------------------------------------- md5, base64, uuid, json
pub uninterp spec fn md5_(s: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub struct Md5 { _p: () }
impl View for Md5 { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct Md5Out { _p: () }
impl View for Md5Out { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl VRef<[u8]> for Md5Out {
    open spec fn vr(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vref(&self) -> (r: &[u8]) { unimplemented!() }
}
impl Md5 {
    #[verifier::external_body]
    pub fn new() -> (r: Md5) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: Md5Out) ensures r@ == md5_(self@) { unimplemented!() }
}
/// an entity tag
pub open spec fn etag(data: Seq<u8>) -> Seq<char> { "\""@ + hexs(md5_(data)) + "\""@ }
#[verifier::external_body]
pub struct Base64Url { _p: () }
#[verifier::external_body]
pub fn base64_url() -> Base64Url { unimplemented!() }
pub uninterp spec fn b64u(s: Seq<u8>) -> Seq<char>;
pub open spec fn b64u_char(c: char) -> bool { '0' <= c <= '9' || 'A' <= c <= 'Z' || 'a' <= c <= 'z' || c == '-' || c == '_' }
pub broadcast proof fn axiom_b64u(s: Seq<u8>)
    ensures #![trigger b64u(s)] forall|i: int| 0 <= i < b64u(s).len() ==> b64u_char(#[trigger] b64u(s)[i]),
{ admit(); }
pub broadcast proof fn axiom_b64u_inj(s: Seq<u8>, t: Seq<u8>)
    ensures #[trigger] b64u(s) == #[trigger] b64u(t) ==> s == t,
{ admit(); }
impl Base64Url {
    #[verifier::external_body]
    pub fn encode_to_string(&self, s: &str) -> (r: String) ensures r@ == b64u(encode_utf8(s@)) { unimplemented!() }
}
#[verifier::external_body]
pub struct Uuid { _p: () }
#[verifier::external_body]
pub struct UuidError { _p: () }
pub uninterp spec fn is_uuid(s: Seq<char>) -> bool;
pub open spec fn uuid_char(c: char) -> bool { '0' <= c <= '9' || 'A' <= c <= 'F' || 'a' <= c <= 'f' || c == '-' || c == '{' || c == '}' || c == 'u' || c == 'r' || c == 'n' || c == 'i' || c == 'd' || c == ':' }
pub broadcast proof fn axiom_uuid(s: Seq<char>)
    ensures #[trigger] is_uuid(s) ==> s.len() <= 45 && (forall|i: int| 0 <= i < s.len() ==> uuid_char(#[trigger] s[i])),
{ admit(); }
impl Uuid {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn parse_str(s: &str) -> (r: Result<Uuid, UuidError>) ensures r is Ok == is_uuid(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_v4() -> (r: Uuid) ensures is_uuid(r.text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
impl VDisp for Uuid { open spec fn dv(&self) -> Seq<char> { self.text() } }
pub uninterp spec fn json(m: Map<Seq<char>, Seq<char>>) -> Seq<u8>;
pub uninterp spec fn parse_json(s: Seq<u8>) -> Option<Map<Seq<char>, Seq<char>>>;
/// what serde_json writes, serde_json reads
pub broadcast proof fn axiom_json(m: Map<Seq<char>, Seq<char>>) ensures parse_json(#[trigger] json(m)) == Some(m) { admit(); }
#[verifier::external_body]
pub struct JsonError { _p: () }
#[verifier::external_body]
pub fn json_to_vec(m: &HashMap<String, String>) -> (r: Result<Vec<u8>, JsonError>) ensures r is Ok && r->Ok_0@ == json(m@) { unimplemented!() }
#[verifier::external_body]
pub fn json_from_slice(s: &Vec<u8>) -> (r: Result<HashMap<String, String>, JsonError>)
    ensures match r { Ok(m) => parse_json(s@) == Some(m@), Err(_) => parse_json(s@) is None }
{ unimplemented!() }
// ---------------------------------------------------------------- request and response bodies
/// a body: the bytes still to come, whether reading them ends with an error, and those its reader will have taken in the end
#[verifier::external_body]
pub struct ByteStream { _p: () }
impl ByteStream {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn broken(&self) -> bool;
    pub uninterp spec fn left(&self) -> nat;
    /// taken already
    pub uninterp spec fn taken(&self) -> Seq<u8>;
    /// taken by the time the stream is dropped
    pub uninterp spec fn all(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<Bytes, IoError>>)
        ensures
            final(self).all() == old(self).all(),
            match r {
                None => old(self).data().len() == 0 && !old(self).broken() && final(self).data().len() == 0 && !final(self).broken() && final(self).all() == final(self).taken() && final(self).taken() == old(self).taken(),
                Some(Err(_)) => old(self).broken() && final(self).taken() == old(self).taken(),
                Some(Ok(b)) => old(self).data() == b@ + final(self).data() && final(self).broken() == old(self).broken() && final(self).left() < old(self).left() && final(self).taken() == old(self).taken() + b@,
            }
    { unimplemented!() }
}
/// body.inspect_ok(|b| hash.update(b)): the hash sees what the reader of the result takes
#[verifier::external_body]
pub fn vinspect_ok_update(body: ByteStream, h: &mut Md5) -> (r: ByteStream)
    ensures r.data() == body.data(), r.broken() == body.broken(), r.taken() == Seq::<u8>::empty(), final(h)@ == old(h)@ + r.all(),
{ unimplemented!() }
// ---------------------------------------------------------------- std
global size_of usize == 8;
#[verifier::external_body]
pub fn vvec_repeat<T: Copy>(t: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| t) { unimplemented!() }
#[derive(Debug)]
pub struct TryFromIntError;
/// TryInto between integer types
pub trait VTryInto<T>: Sized { spec fn conv_to(self) -> Option<T>; fn vtry_into(self) -> (r: Result<T, TryFromIntError>) ensures match r { Ok(x) => self.conv_to() == Some(x), Err(_) => self.conv_to() is None }; }
impl VTryInto<usize> for u64 { open spec fn conv_to(self) -> Option<usize> { Some(self as usize) } fn vtry_into(self) -> (r: Result<usize, TryFromIntError>) { Ok(self as usize) } }
impl VTryInto<i64> for u64 { open spec fn conv_to(self) -> Option<i64> { if self <= i64::MAX { Some(self as i64) } else { None } } fn vtry_into(self) -> (r: Result<i64, TryFromIntError>) { if self <= i64::MAX as u64 { Ok(self as i64) } else { Err(TryFromIntError) } } }
impl VTryInto<i64> for usize { open spec fn conv_to(self) -> Option<i64> { if self <= i64::MAX { Some(self as i64) } else { None } } fn vtry_into(self) -> (r: Result<i64, TryFromIntError>) { if self <= i64::MAX as usize { Ok(self as i64) } else { Err(TryFromIntError) } } }
impl Bytes {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
pub trait VGetTo { fn vget(&self, r: core::ops::RangeTo<usize>) -> (o: Option<&[u8]>); }
impl VGetTo for Vec<u8> {
    #[verifier::external_body]
    fn vget(&self, r: core::ops::RangeTo<usize>) -> (o: Option<&[u8]>)
        ensures match o { Some(s) => r.end <= self@.len() && s@ == self@.subrange(0, r.end as int), None => r.end > self@.len() }
    { unimplemented!() }
}
pub trait VWrap: Sized { spec fn iv(self) -> int; fn vwrapping_mul(self, o: Self) -> (r: Self) ensures self.iv() * o.iv() <= usize::MAX ==> r.iv() == self.iv() * o.iv(); }
impl VWrap for usize {
    open spec fn iv(self) -> int { self as int }
    #[verifier::external_body]
    fn vwrapping_mul(self, o: usize) -> (r: usize) { self.wrapping_mul(o) }
}
impl<E> S3StorageError<E> {
    /// From<S3Error> (the `?` operator)
    pub fn vfrom(e: S3Error) -> (r: S3StorageError<E>) ensures r == S3StorageError::<E>::Other(e) { S3StorageError::Other(e) }
}
pub fn vtry_usize<T: VTryInto<usize>>(t: T) -> (r: Result<usize, TryFromIntError>) ensures match r { Ok(x) => t.conv_to() == Some(x), Err(_) => t.conv_to() is None } { t.vtry_into() }
pub fn vtry_i64<T: VTryInto<i64>>(t: T) -> (r: Result<i64, TryFromIntError>) ensures match r { Ok(x) => t.conv_to() == Some(x), Err(_) => t.conv_to() is None } { t.vtry_into() }
pub fn vchecked_neg(x: i64) -> (r: Option<i64>) ensures r == (if x == i64::MIN { None::<i64> } else { Some((-x) as i64) }) { if x == i64::MIN { None } else { Some(-x) } }
pub trait VAsDeref { spec fn adv(&self) -> Option<Seq<char>>; fn vas_deref(&self) -> (r: Option<&str>) ensures match r { Some(s) => self.adv() == Some(s@), None => self.adv() is None }; }
impl VAsDeref for Option<String> {
    open spec fn adv(&self) -> Option<Seq<char>> { os(*self) }
    fn vas_deref(&self) -> (r: Option<&str>) { match self { Some(s) => Some(s.as_str()), None => None } }
}
pub trait VTranspose<T, E>: Sized { spec fn tv(self) -> Result<Option<T>, E>; fn vtranspose(self) -> (r: Result<Option<T>, E>) ensures r == self.tv(); }
impl<T, E> VTranspose<T, E> for Option<Result<T, E>> {
    open spec fn tv(self) -> Result<Option<T>, E> { match self { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) } }
    fn vtranspose(self) -> (r: Result<Option<T>, E>) { match self { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) } }
}
/// reading a file from where it stands
impl File { pub uninterp spec fn other_rest(&self) -> Seq<u8>; }
impl AsyncRead for File {
    open spec fn rest(&self) -> Seq<u8> { if self.is_reg() && 0 <= self.pos() <= self.data().len() { self.data().subrange(self.pos(), self.data().len() as int) } else { self.other_rest() } }
    #[verifier::external_body]
    fn poll_read(&mut self, cx: &mut Context, buf: &mut Vec<u8>) -> (r: Poll<IoResult<usize>>) { unimplemented!() }
}
impl ByteStream {
    /// what is collected from a stream whose poll_next meets its contract (u06)
    #[verifier::external_body]
    pub fn new(s: BytesStream<File>) -> (r: ByteStream) requires s.inv() ensures r.data() == s.v() { unimplemented!() }
}
/// the patterns used with ends_with
pub trait VEndPat { spec fn pat(self) -> Seq<char>; }
impl VEndPat for char { open spec fn pat(self) -> Seq<char> { seq![self] } }
impl<'a> VEndPat for &'a str { open spec fn pat(self) -> Seq<char> { self@ } }
impl<'a> VEndPat for &'a String { open spec fn pat(self) -> Seq<char> { self@ } }
pub trait VEnds: View<V = Seq<char>> {
    fn vends<Q: VEndPat>(&self, p: Q) -> (r: bool) ensures r == is_suffix(p.pat(), self@);
    fn vstarts<Q: VEndPat>(&self, p: Q) -> (r: bool) ensures r == is_prefix(p.pat(), self@);
}
impl VEnds for str {
    #[verifier::external_body]
    fn vends<Q: VEndPat>(&self, p: Q) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vstarts<Q: VEndPat>(&self, p: Q) -> (r: bool) { unimplemented!() }
}
impl VEnds for String {
    #[verifier::external_body]
    fn vends<Q: VEndPat>(&self, p: Q) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vstarts<Q: VEndPat>(&self, p: Q) -> (r: bool) { unimplemented!() }
}
pub trait VContains { fn vcontains(&self, s: &&str) -> (r: bool); }
impl<const N: usize> VContains for [&str; N] {
    #[verifier::external_body]
    fn vcontains(&self, s: &&str) -> (r: bool) ensures r == exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i])@ == s@ { unimplemented!() }
}
/// Option<Vec<T>>::into_iter().flatten(): the elements, if any (a vector has at most isize::MAX of them)
pub trait VFlat<T>: Sized { spec fn flat(self) -> Seq<T>; fn vflat(self) -> (r: VIt<T>) ensures r.i() == 0, r.v() == self.flat(), r.v().len() <= i64::MAX; }
impl<T> VFlat<T> for Option<Vec<T>> {
    open spec fn flat(self) -> Seq<T> { match self { Some(v) => v@, None => Seq::empty() } }
    #[verifier::external_body]
    fn vflat(self) -> (r: VIt<T>) { unimplemented!() }
}
pub trait VWrapAdd: Sized { spec fn wv(self) -> int; spec fn lo() -> int; spec fn hi() -> int; fn vwrapping_add(self, o: Self) -> (r: Self) ensures Self::lo() <= self.wv() + o.wv() <= Self::hi() ==> r.wv() == self.wv() + o.wv(); }
impl VWrapAdd for i64 {
    open spec fn wv(self) -> int { self as int }
    open spec fn lo() -> int { i64::MIN as int }
    open spec fn hi() -> int { i64::MAX as int }
    fn vwrapping_add(self, o: i64) -> (r: i64) { self.wrapping_add(o) }
}
/// each of 0..n once
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool {
    &&& p.len() == n
    &&& p.no_duplicates()
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|k: int| 0 <= k < n ==> #[trigger] p.contains(k)
}
/// slice::sort_by with a comparison that is a total preorder given by a rank (trusted)
pub trait VRank { spec fn rank(&self) -> Seq<char>; }
pub open spec fn ranked<T: VRank, F: Fn(&T, &T) -> core::cmp::Ordering>(f: F) -> bool {
    forall|a: T, b: T, o: core::cmp::Ordering| #[trigger] f.ensures((&a, &b), o) ==> ordi(o) == scmp(a.rank(), b.rank())
}
pub open spec fn permuted<T>(v: Seq<T>, o: Seq<T>, p: Seq<int>) -> bool { is_perm(p, o.len() as int) && v.len() == o.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == o[p[i]] }
pub trait VSortBy<T: VRank> {
    fn vsort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) requires forall|a: T, b: T| #[trigger] f.requires((&a, &b));
}
impl<T: VRank> VSortBy<T> for Vec<T> {
    #[verifier::external_body]
    fn vsort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
        ensures
            exists|p: Seq<int>| #[trigger] permuted(final(self)@, old(self)@, p),
            ranked(f) ==> forall|i: int, j: int| 0 <= i <= j < final(self)@.len() ==> sle((#[trigger] final(self)@[i]).rank(), (#[trigger] final(self)@[j]).rank()),
    { self.sort_by(f) }
}
pub proof fn axiom_vec_lens<T>() ensures forall|v: Vec<T>| #[trigger] v@.len() <= i64::MAX { admit(); }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { v: std::collections::VecDeque<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r { Some(t) => old(self)@.len() > 0 && t == old(self)@[0] && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
}
impl VRef<str> for CowStr {
    open spec fn vr(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vref(&self) -> (r: &str) { unimplemented!() }
}
