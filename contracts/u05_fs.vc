//@ include base.rs
//@ include eqm.rs
//@ import u07_path.vc
//@ import u08_errors.vc
//@ import u09_ordered.vc
//@ import u10_headers.vc
//@ import u01_sigv4.vc
//@ include urldec.rs
//@ import u06_bytes.vc
//@ include fsm.rs
//@ include dto.rs
//@ chain
//@ strip crypto time async_fs_
//@ method into vconv
//@ method iter viter
//@ method as_ref vref
//@ method as_deref vas_deref
//@ method transpose vtranspose
//@ method min vmin
//@ method contains vcontains
//@ method ends_with vends
//@ method try_into vtry_into
//@ method wrapping_add vwrapping_add
//@ method clone vclone
//@ method starts_with vstarts
//@ method sort_by vsort_by
//@ method cmp vcmp
//@ rewrite & * name ==> name . vref ()
//@ rewrite . into_iter () . flatten () ==> . vflat ()
//@ rewrite usize :: try_from ==> vtry_usize
//@ rewrite i64 :: try_from ==> vtry_i64
//@ rewrite i64 :: checked_neg ==> vchecked_neg
//@ rewrite drop ==> vdrop
//@ rewrite mime :: APPLICATION_OCTET_STREAM . vref () ==> "application/octet-stream"
//@ rewrite async_fs :: read_dir ==> fs_read_dir
//@ rewrite async_fs :: read ==> fs_read
//@ rewrite async_fs :: write ==> fs_write
//@ rewrite async_fs :: remove_file ==> fs_remove_file
//@ rewrite async_fs :: remove_dir_all ==> fs_remove_dir_all
//@ rewrite async_fs :: remove_dir ==> fs_remove_dir
//@ rewrite async_fs :: create_dir_all ==> fs_create_dir_all
//@ rewrite async_fs :: create_dir ==> fs_create_dir
//@ rewrite async_fs :: copy ==> fs_copy
//@ rewrite async_fs :: rename ==> fs_rename
//@ rewrite async_fs :: metadata ==> fs_metadata
//@ rewrite crate :: errors :: ==>
//@ rewrite crate :: dto :: ==>
//@ rewrite io :: Error :: new ==> io_error_new
//@ rewrite io :: ErrorKind ==> IoErrorKind
//@ rewrite serde_json :: from_slice ==> json_from_slice
//@ rewrite serde_json :: to_vec ==> json_to_vec
//@ rewrite base64_simd :: URL_SAFE_NO_PAD ==> base64_url ()
//@ rewrite urlencoding :: decode ==> vurl_decode
//@ rewrite futures :: io :: copy_buf ==> io_copy_buf
//@ rewrite futures :: io :: copy ==> io_copy
//@ effects async_fs::read async_fs::write async_fs::remove_file async_fs::remove_dir async_fs::remove_dir_all async_fs::create_dir async_fs::create_dir_all async_fs::copy async_fs::rename async_fs::metadata async_fs::read_dir File::open File::create io::copy io::copy_buf copy_bytes .exists .is_file .flush .load_metadata .save_metadata .delete_metadata .get_md5_sum .file_type .metadata .is_dir
//@ effect_arg fs
//@ item src/storages/fs.rs FileSystem
//@ include fs_spec.rs
//@ text
impl FileSystem {
    pub open spec fn r(&self) -> P { self.root@ }
    pub open spec fn op(&self, b: String, k: String) -> P { opath(self.r(), b@, k@) }
    pub open spec fn part(&self, id: String, n: i64) -> P { ppath(self.r(), id@, n) }
    pub open spec fn mp(&self, b: String, k: String) -> P { mpath(self.r(), b@, k@) }
//@ fn src/storages/fs.rs FileSystem::get_object_path
//@ question * same
//@ sig pub fn get_object_path(&self, bucket: &str, key: &str) -> (r: Result<PathBuf, IoError>)
//@ spec
    requires bucket_name_ok(bucket@),
    ensures
        r is Ok <==> key_ok(key@),
        r is Ok ==> r->Ok_0@ == opath(self.r(), bucket@, key@),
//@ loop 0
        invariant
            file_path@ == comps(key@), it0.v().len() == file_path@.len(), 0 <= it0.i() <= it0.v().len(),
            forall|i: int| 0 <= i < it0.v().len() ==> compv(#[trigger] it0.v()[i]) == file_path@[i],
            forall|i: int| 0 <= i < it0.i() ==> (#[trigger] file_path@[i]) is Normal || file_path@[i] is Cur,
            is_below == exists|i: int| 0 <= i < it0.i() && (#[trigger] file_path@[i]) is Normal,
        ensures it0.i() == it0.v().len(),
        decreases it0.v().len() - it0.i(),
//@ hint start
    proof { lemma_bucket(bucket@); lemma_no_cur(comps(key@)); assert(bdir(self.r(), bucket@) + no_cur(comps(key@)) =~= self.r() + (seq![Comp::Normal(bucket@)] + no_cur(comps(key@)))); }
//@ fn src/storages/fs.rs FileSystem::get_bucket_path
//@ question * same
//@ sig pub fn get_bucket_path(&self, bucket: &str) -> (r: Result<PathBuf, IoError>)
//@ spec
    requires bucket_name_ok(bucket@),
    ensures r is Ok && r->Ok_0@ == bdir(self.r(), bucket@),
//@ hint start
    proof { lemma_bucket(bucket@); lemma_at(self.r(), bucket@); assert(self.r() + seq![Comp::Normal(bucket@)] =~= bdir(self.r(), bucket@)); }
//@ fn src/storages/fs.rs FileSystem::get_metadata_path
//@ question * same
//@ sig pub fn get_metadata_path(&self, bucket: &str, key: &str) -> (r: Result<PathBuf, IoError>)
//@ spec
    ensures r is Ok && r->Ok_0@ == mpath(self.r(), bucket@, key@),
//@ closure 0
|s: &str| -> (o: String) ensures o@ == b64u(encode_utf8(s@))
//@ hint start
    proof { lemma_mname(bucket@, key@); axiom_comps_plain(mname(bucket@, key@)); assert(self.r() + seq![Comp::Normal(mname(bucket@, key@))] =~= mpath(self.r(), bucket@, key@)); }
//@ fn src/storages/fs.rs FileSystem::get_part_path
//@ question * same
//@ sig pub fn get_part_path(&self, upload_id: &str, part_number: i64) -> (r: Result<PathBuf, IoError>)
//@ spec
    ensures
        r is Ok <==> is_uuid(upload_id@),
        r is Ok ==> r->Ok_0@ == ppath(self.r(), upload_id@, part_number),
//@ hint start
    proof { if is_uuid(upload_id@) { lemma_pname(upload_id@, part_number); axiom_comps_plain(pname(upload_id@, part_number)); assert(self.r() + seq![Comp::Normal(pname(upload_id@, part_number))] =~= ppath(self.r(), upload_id@, part_number)); } }
//@ fn src/storages/fs.rs FileSystem::get_tmp_path
//@ question * same
//@ sig pub fn get_tmp_path(&self) -> (r: Result<PathBuf, IoError>)
//@ spec
    ensures r is Ok && is_tmp(self.r(), r->Ok_0@),
//@ hint start
    proof {
        assert forall|id: Seq<char>| #[trigger] is_uuid(id) implies comps(tname(id)) == seq![Comp::Normal(tname(id))] && is_tmp(self.r(), at(self.r(), tname(id))) && self.r() + seq![Comp::Normal(tname(id))] == at(self.r(), tname(id)) by {
            lemma_tname(id); axiom_comps_plain(tname(id)); assert(self.r() + seq![Comp::Normal(tname(id))] =~= at(self.r(), tname(id)));
        }
    }
//@ fn src/storages/fs.rs FileSystem::load_metadata
//@ question * same
//@ comb map_err result
//@ sig pub fn load_metadata(&self, bucket: &str, key: &str, fs: &Fs) -> (r: Result<Option<HashMap<String, String>>, IoError>)
//@ spec
    requires fs.root() == self.r(),
    ensures meta_read(*fs, mpath(self.r(), bucket@, key@), r),
//@ hint start
    proof { lemma_mname(bucket@, key@); lemma_at(self.r(), mname(bucket@, key@)); }
//@ fn src/storages/fs.rs FileSystem::save_metadata
//@ question * same
//@ comb map_err result
//@ sig pub fn save_metadata(&self, bucket: &str, key: &str, metadata: &HashMap<String, String>, fs: &mut Fs) -> (r: Result<(), IoError>)
//@ spec
    requires old(fs).root() == self.r(),
    ensures
        final(fs).only(*old(fs), set![mpath(self.r(), bucket@, key@)]), final(fs).dirs() == old(fs).dirs(),
        r is Ok ==> final(fs).files() == old(fs).files().insert(mpath(self.r(), bucket@, key@), json(metadata@)) && !old(fs).dirs().contains(mpath(self.r(), bucket@, key@)),
        healthy() && old(fs).room(mpath(self.r(), bucket@, key@)) ==> r is Ok,
//@ hint start
    proof { lemma_mname(bucket@, key@); lemma_at(self.r(), mname(bucket@, key@)); }
//@ fn src/storages/fs.rs FileSystem::delete_metadata
//@ question * same
//@ sig pub fn delete_metadata(&self, bucket: &str, key: &str, fs: &mut Fs) -> (r: Result<(), IoError>)
//@ spec
    requires old(fs).root() == self.r(),
    ensures
        final(fs).root() == old(fs).root(), final(fs).dirs() == old(fs).dirs(),
        r is Ok ==> final(fs).files() == old(fs).files().remove(mpath(self.r(), bucket@, key@)),
        r is Err ==> final(fs).files() == old(fs).files(),
        healthy() && !old(fs).dirs().contains(mpath(self.r(), bucket@, key@)) ==> r is Ok,
//@ hint start
    proof { lemma_mname(bucket@, key@); lemma_at(self.r(), mname(bucket@, key@)); }
//@ hint end
    proof { assert(old(fs).files().remove(mpath(self.r(), bucket@, key@)) =~= fs.files()); }
//@ fn src/storages/fs.rs FileSystem::get_md5_sum
//@ question * same
//@ comb unwrap_or_else option
//@ method get vget
//@ method wrapping_mul vwrapping_mul
//@ sig pub fn get_md5_sum(&self, bucket: &str, key: &str, fs: &Fs) -> (r: Result<String, IoError>)
//@ spec
    requires fs.root() == self.r(), bucket_name_ok(bucket@),
    ensures
        r is Ok ==> key_ok(key@) && fs.files().contains_key(opath(self.r(), bucket@, key@)) && r->Ok_0@ == hexs(md5_(fs.files()[opath(self.r(), bucket@, key@)])),
        healthy() && key_ok(key@) && fs.files().contains_key(opath(self.r(), bucket@, key@)) ==> r is Ok,
//@ loop 0
        invariant_except_break
            0 <= file.pos() <= file.data().len(), md5_hash@ == file.data().subrange(0, file.pos()), file.is_reg() == d0.is_reg(), file.data() == d0.data(), buf@.len() > 0,
        invariant
            d0.is_reg() == fs.files().contains_key(opath(self.r(), bucket@, key@)),
        ensures
            file.is_reg(), d0.is_reg(), md5_hash@ == d0.data(),
        decreases file.data().len() - file.pos(),
//@ hint start
    proof { if key_ok(key@) { lemma_opath(self.r(), bucket@, key@); } }
//@ hint before_loop0
    let ghost d0 = file;
//@ endfn
//@ text
}
//@ fn src/storages/fs.rs copy_bytes
//@ question * same
//@ comb unwrap_or_else#0 result
//@ comb unwrap_or_else#1 option
//@ method try_into vtry_into
//@ sig pub fn copy_bytes(stream0: ByteStream, writer: &mut BufWriter, fs: &mut Fs) -> (r: Result<usize, IoError>)
//@ spec
    requires
        stream0.data().len() <= usize::MAX,
    ensures
        final(writer).path() == old(writer).path(), final(fs).only(*old(fs), set![old(writer).path()]), final(fs).dirs() == old(fs).dirs(),
        final(fs).files().contains_key(old(writer).path()) == old(fs).files().contains_key(old(writer).path()),
        r is Ok ==> !stream0.broken() && r->Ok_0 == stream0.data().len() && stream0.all() == stream0.taken() + stream0.data()
            && final(writer).data() == old(writer).data() + stream0.data() && final(fs).files() == old(fs).files().insert(old(writer).path(), final(writer).data()),
        healthy() && !stream0.broken() ==> r is Ok,
//@ loop 0
        invariant_except_break
            s0.broken() == stream.broken(),
        invariant
            s0 == stream0, s0.data().len() <= usize::MAX, w0 == *old(writer), f0 == *old(fs),
            w0.data() + s0.data() == writer.data() + stream.data(),
            s0.taken() + s0.data() == stream.taken() + stream.data(),
            nwrite == s0.data().len() - stream.data().len(), s0.all() == stream.all(),
            writer.path() == w0.path(), fs.only(f0, set![w0.path()]), fs.dirs() == f0.dirs(), fs.files().contains_key(w0.path()) == f0.files().contains_key(w0.path()),
        ensures
            stream.data().len() == 0, !s0.broken(), stream.all() == stream.taken(),
        decreases stream.left(),
//@ hint start
    let ghost s0 = stream0; let ghost w0 = *writer; let ghost f0 = *fs;
//@ hint loop0_start
    let ghost w1 = *writer; let ghost s1 = stream;
//@ hint after_loop0
    proof { assert(stream.taken() + stream.data() =~= stream.taken()); assert(writer.data() + stream.data() =~= writer.data()); }
//@ hint loop0_end
    proof {
        let b = bytes@;
        assert(w1.data() + (b + stream.data()) =~= (w1.data() + b) + stream.data());
        assert(s1.taken() + (b + stream.data()) =~= (s1.taken() + b) + stream.data());
    }
//@ hint end
    proof { assert(fs.files() =~= old(fs).files().insert(old(writer).path(), writer.data())); }
//@ fn src/storages/fs.rs operation_error
//@ sig pub fn operation_error<E>(e: E) -> (r: S3StorageError<E>)
//@ spec
    ensures r == S3StorageError::<E>::Operation(e),
//@ text
impl FileSystem {
//@ fn src/storages/fs.rs FileSystem=S3Storage::create_bucket
//@ question * S3StorageError::vfrom
//@ sig pub fn create_bucket(&self, input: CreateBucketRequest, fs: &mut Fs) -> (r: S3StorageResult<CreateBucketOutput, CreateBucketError>)
//@ spec
    requires old(fs).root() == self.r(), bucket_name_ok(input.bucket@),
    ensures
        final(fs).root() == old(fs).root(), final(fs).files() == old(fs).files(),
        ({ let d = bdir(self.r(), input.bucket@); match r {
            Ok(_) => !old(fs).exists(d) && final(fs).dirs() == old(fs).dirs().insert(d),
            Err(S3StorageError::Operation(e)) => e is BucketAlreadyExists && old(fs).exists(d) && final(fs).dirs() == old(fs).dirs(),
            Err(S3StorageError::Other(e)) => e.code() is InternalError && !old(fs).exists(d) && !healthy() && final(fs).dirs() == old(fs).dirs(),
        } }),
//@ hint start
    proof { lemma_bucket(input.bucket@); lemma_at(self.r(), input.bucket@); }
//@ fn src/storages/fs.rs FileSystem=S3Storage::delete_bucket
//@ question * S3StorageError::vfrom
//@ sig pub fn delete_bucket(&self, input: DeleteBucketRequest, fs: &mut Fs) -> (r: S3StorageResult<DeleteBucketOutput, DeleteBucketError>)
//@ spec
    requires old(fs).root() == self.r(), bucket_name_ok(input.bucket@),
    ensures
        final(fs).root() == old(fs).root(),
        ({ let d = bdir(self.r(), input.bucket@);
            &&& forall|q: P| !starts(q, d) ==> (#[trigger] final(fs).files().contains_key(q) == old(fs).files().contains_key(q)) && (final(fs).files().contains_key(q) ==> final(fs).files()[q] == old(fs).files()[q])
            &&& forall|q: P| !starts(q, d) ==> (#[trigger] final(fs).dirs().contains(q) == old(fs).dirs().contains(q))
            &&& (r is Ok ==> old(fs).exists(d) && forall|q: P| starts(q, d) ==> !(#[trigger] final(fs).exists(q)))
            &&& (r is Err && ecode(r) is NoSuchBucket <==> !old(fs).exists(d))
            &&& (r is Err ==> ecode(r) is NoSuchBucket || ecode(r) is InternalError)
            &&& (healthy() && old(fs).dirs().contains(d) ==> r is Ok)
        }),
//@ hint start
    proof { lemma_bucket(input.bucket@); lemma_at(self.r(), input.bucket@); }
//@ fn src/storages/fs.rs FileSystem=S3Storage::head_bucket
//@ question * S3StorageError::vfrom
//@ sig pub fn head_bucket(&self, input: HeadBucketRequest, fs: &Fs) -> (r: S3StorageResult<HeadBucketOutput, HeadBucketError>)
//@ spec
    requires fs.root() == self.r(), bucket_name_ok(input.bucket@),
    ensures r is Ok <==> fs.exists(bdir(self.r(), input.bucket@)), r is Err ==> r->Err_0 is Other && ecode(r) is NoSuchBucket,
//@ hint start
    proof { lemma_bucket(input.bucket@); lemma_at(self.r(), input.bucket@); }
//@ fn src/storages/fs.rs FileSystem=S3Storage::get_bucket_location
//@ question * S3StorageError::vfrom
//@ sig pub fn get_bucket_location(&self, input: GetBucketLocationRequest, fs: &Fs) -> (r: S3StorageResult<GetBucketLocationOutput, GetBucketLocationError>)
//@ spec
    requires fs.root() == self.r(), bucket_name_ok(input.bucket@),
    ensures r is Ok <==> fs.exists(bdir(self.r(), input.bucket@)), r is Ok ==> r->Ok_0.location_constraint is None, r is Err ==> r->Err_0 is Other && ecode(r) is NoSuchBucket,
//@ hint start
    proof { lemma_bucket(input.bucket@); lemma_at(self.r(), input.bucket@); }
//@ fn src/storages/fs.rs FileSystem=S3Storage::get_object
//@ question * S3StorageError::vfrom
//@ comb map option
//@ comb map_err result
//@ comb and_then option
//@ comb unwrap_or option
//@ sig pub fn get_object(&self, input: GetObjectRequest, fs: &Fs) -> (r: S3StorageResult<GetObjectOutput, GetObjectError>)
//@ spec
    requires fs.root() == self.r(), bucket_name_ok(input.bucket@),
    ensures ({
        let p = opath(self.r(), input.bucket@, input.key@);
        let m = mpath(self.r(), input.bucket@, input.key@);
        let data = fs.files()[p];
        match r {
            Ok(o) => {
                &&& key_ok(input.key@) && fs.files().contains_key(p)
                &&& asked(input.range) is Some && selected(data, asked(input.range).unwrap()) is Some
                &&& o.body is Some && o.body.unwrap().data() == selected(data, asked(input.range).unwrap()).unwrap()
                &&& o.content_length == Some(o.body.unwrap().data().len() as i64)
                &&& os(o.e_tag) == Some(etag(data))
                &&& os(o.last_modified) == Some(time_text(mtime_of(*fs, p)))
                &&& meta_of(*fs, m, o.metadata)
            },
            Err(e) => {
                &&& e is Other
                &&& key_ok(input.key@) && asked(input.range) is None && fs.exists(p) ==> ecode(r) is InvalidRequest
                &&& key_ok(input.key@) && asked(input.range) is Some && !fs.exists(p) ==> ecode(r) is NoSuchKey
                &&& ecode(r) is NoSuchKey ==> !(healthy() && fs.exists(p))
                &&& ecode(r) is InvalidRange ==> asked(input.range) is Some && (fs.files().contains_key(p) ==> !satisfiable(data, asked(input.range).unwrap()))
                &&& healthy() && key_ok(input.key@) && fs.files().contains_key(p) && asked(input.range) is Some && selected(data, asked(input.range).unwrap()) is None ==> ecode(r) is InvalidRange
                &&& !(healthy() && key_ok(input.key@) && fs.files().contains_key(p) && asked(input.range) is Some && satisfiable(data, asked(input.range).unwrap()) && meta_fine(*fs, m))
            },
        }
    }),
//@ closure 0
|s: &str| -> (o: Result<Range, S3Error>) ensures match o { Ok(x) => range_of(s@) == Some(x), Err(e) => range_of(s@) is None && e.code() is InvalidRequest }
//@ hint start
    proof { if key_ok(input.key@) { lemma_opath(self.r(), input.bucket@, input.key@); } }
//@ fn src/storages/fs.rs FileSystem=S3Storage::head_object
//@ question * S3StorageError::vfrom
//@ sig pub fn head_object(&self, input: HeadObjectRequest, fs: &Fs) -> (r: S3StorageResult<HeadObjectOutput, HeadObjectError>)
//@ spec
    requires fs.root() == self.r(), bucket_name_ok(input.bucket@),
    ensures ({
        let p = opath(self.r(), input.bucket@, input.key@);
        let m = mpath(self.r(), input.bucket@, input.key@);
        match r {
            Ok(o) => {
                &&& key_ok(input.key@) && fs.exists(p)
                &&& fs.files().contains_key(p) ==> o.content_length == Some(fs.files()[p].len() as i64)
                &&& os(o.last_modified) == Some(time_text(mtime_of(*fs, p)))
                &&& meta_of(*fs, m, o.metadata)
            },
            Err(e) => {
                &&& e is Other
                &&& key_ok(input.key@) && !fs.exists(p) ==> ecode(r) is NoSuchKey
                &&& ecode(r) is NoSuchKey ==> key_ok(input.key@) && !fs.exists(p)
                &&& !(healthy() && key_ok(input.key@) && fs.files().contains_key(p) && meta_fine(*fs, m))
            },
        }
    }),
//@ hint start
    proof { if key_ok(input.key@) { lemma_opath(self.r(), input.bucket@, input.key@); } }
//@ fn src/storages/fs.rs FileSystem=S3Storage::put_object
//@ question * S3StorageError::vfrom
//@ comb ok_or_else option
//@ sig pub fn put_object(&self, input0: PutObjectRequest, fs: &mut Fs) -> (r: S3StorageResult<PutObjectOutput, PutObjectError>)
//@ spec
    requires
        old(fs).root() == self.r(), bucket_name_ok(input0.bucket@),
        input0.body is Some ==> input0.body.unwrap().data().len() <= usize::MAX && input0.body.unwrap().taken().len() == 0,
    ensures
        same_files(*final(fs), *old(fs), set![self.op(input0.bucket, input0.key), self.mp(input0.bucket, input0.key)]),
        more_dirs(*final(fs), *old(fs), self.op(input0.bucket, input0.key)),
        r is Err ==> r->Err_0 is Other,
        dir_key(input0.key) ==> same_files(*final(fs), *old(fs), set![]),
        r is Ok ==> key_ok(input0.key@) && input0.body is Some && old(fs).exists(bdir(self.r(), input0.bucket@)),
        r is Ok && dir_key(input0.key) ==> input0.content_length == Some(0i64) && final(fs).dirs().contains(self.op(input0.bucket, input0.key)),
        r is Ok && !dir_key(input0.key) ==> !input0.body.unwrap().broken() && os(r->Ok_0.e_tag) == Some(etag(input0.body.unwrap().data())),
        r is Ok && !dir_key(input0.key) ==> holds(*final(fs), self.op(input0.bucket, input0.key), input0.body.unwrap().data()),
        r is Ok && !dir_key(input0.key) ==> meta_stored(*final(fs), self.mp(input0.bucket, input0.key), input0.metadata),
        // a body that fails leaves the object and its metadata as they were
        input0.body is None || input0.body.unwrap().broken() ==> same_files(*final(fs), *old(fs), set![]),
        // the object is never half written
        same_at(*final(fs), *old(fs), self.op(input0.bucket, input0.key)) || holds(*final(fs), self.op(input0.bucket, input0.key), input0.body.unwrap().data()),
        same_at(*final(fs), *old(fs), self.mp(input0.bucket, input0.key)) || holds(*final(fs), self.op(input0.bucket, input0.key), input0.body.unwrap().data()),
        r is Err && ecode(r) is NoSuchBucket <==> storage_class_ok(input0.storage_class) && input0.body is Some && !old(fs).exists(bdir(self.r(), input0.bucket@)),
        !storage_class_ok(input0.storage_class) ==> r is Err && ecode(r) is InvalidStorageClass,
        healthy() && storage_class_ok(input0.storage_class) && input0.body is Some && !input0.body.unwrap().broken() && old(fs).dirs().contains(bdir(self.r(), input0.bucket@)) && key_ok(input0.key@)
            && !dir_key(input0.key) && way_free(*old(fs), self.op(input0.bucket, input0.key)) && no_tmp_dirs(*old(fs)) && old(fs).room(self.mp(input0.bucket, input0.key)) ==> r is Ok,
//@ hint start
    let ghost f0 = *fs;
    proof { lemma_bucket(input0.bucket@); lemma_at(self.r(), input0.bucket@); lemma_service(self.r(), input0.bucket@, input0.key@); if key_ok(input0.key@) { lemma_opath(self.r(), input0.bucket@, input0.key@); lemma_way(self.r(), input0.bucket@, input0.key@); } }
    proof { assert forall|t: P| is_tmp(self.r(), t) implies #[trigger] below(t, self.r()) && t.drop_last() == self.r() && fits(t.subrange(self.r().len() as int, t.len() as int)) by { lemma_tmp(self.r(), t); } }
//@ fn src/storages/fs.rs FileSystem=S3Storage::copy_object
//@ question * S3StorageError::vfrom
//@ comb map_err result
//@ sig pub fn copy_object(&self, input: CopyObjectRequest, fs: &mut Fs) -> (r: S3StorageResult<CopyObjectOutput, CopyObjectError>)
//@ spec
    requires old(fs).root() == self.r(), bucket_name_ok(input.bucket@),
    ensures
        same_files(*final(fs), *old(fs), set![self.op(input.bucket, input.key), self.mp(input.bucket, input.key)]),
        more_dirs(*final(fs), *old(fs), self.op(input.bucket, input.key)),
        r is Err ==> r->Err_0 is Other,
        r is Ok ==> copy_source(input.copy_source@) is Some && key_ok(input.key@) && old(fs).exists(bdir(self.r(), input.bucket@)),
        copy_source(input.copy_source@) is None ==> r is Err && ecode(r) is InvalidRequest,
        copy_source(input.copy_source@) is None ==> same_files(*final(fs), *old(fs), set![]),
        copy_source(input.copy_source@) is Some ==> ({
            let (b, k) = copy_source(input.copy_source@).unwrap();
            let src = opath(self.r(), b, k); let msrc = mpath(self.r(), b, k);
            let dst = self.op(input.bucket, input.key); let mdst = self.mp(input.bucket, input.key);
            let data = old(fs).files()[src];
            &&& (r is Ok ==> key_ok(k) && old(fs).files().contains_key(src))
            &&& (r is Ok ==> holds(*final(fs), dst, data))
            &&& (r is Ok ==> meta_copied(*final(fs), mdst, *old(fs), msrc))
            &&& (r is Ok ==> r->Ok_0.copy_object_result is Some && os(r->Ok_0.copy_object_result.unwrap().e_tag) == Some(etag(data)))
            &&& (r is Ok ==> os(r->Ok_0.copy_object_result.unwrap().last_modified) == Some(time_text(mtime_of(*old(fs), src))))
            // the destination is never half written
            &&& (same_at(*final(fs), *old(fs), dst) || old(fs).files().contains_key(src) && holds(*final(fs), dst, data))
            &&& (same_at(*final(fs), *old(fs), mdst) || old(fs).files().contains_key(src) && holds(*final(fs), dst, data))
            &&& (key_ok(k) && key_ok(input.key@) && !old(fs).exists(bdir(self.r(), input.bucket@)) ==> r is Err && ecode(r) is NoSuchBucket)
            &&& (key_ok(k) && key_ok(input.key@) && old(fs).exists(bdir(self.r(), input.bucket@)) && !old(fs).exists(src) ==> r is Err && ecode(r) is NoSuchKey)
            &&& (r is Err && ecode(r) is NoSuchKey ==> !old(fs).exists(src))
            &&& (r is Err && (ecode(r) is NoSuchKey || ecode(r) is NoSuchBucket) ==> same_files(*final(fs), *old(fs), set![]))
            &&& (healthy() && key_ok(k) && key_ok(input.key@) && old(fs).files().contains_key(src) && old(fs).dirs().contains(bdir(self.r(), input.bucket@)) && meta_fine(*old(fs), msrc)
                && way_free(*old(fs), dst) && no_tmp_dirs(*old(fs)) && old(fs).room(mdst) ==> r is Ok)
        }),
//@ hint start
    proof {
        assert forall|m: Map<Seq<char>, Seq<char>>| #[trigger] parse_json(json(m)) == Some(m) by { axiom_json(m); }
        lemma_bucket(input.bucket@); lemma_at(self.r(), input.bucket@); lemma_service(self.r(), input.bucket@, input.key@);
        if key_ok(input.key@) { lemma_opath(self.r(), input.bucket@, input.key@); lemma_way(self.r(), input.bucket@, input.key@); }
        if copy_source(input.copy_source@) is Some { let (b, k) = copy_source(input.copy_source@).unwrap(); lemma_bucket(b); lemma_service(self.r(), b, k); if key_ok(k) { lemma_opath(self.r(), b, k); lemma_way(self.r(), b, k); } }
        assert forall|t: P| is_tmp(self.r(), t) implies #[trigger] below(t, self.r()) && t.drop_last() == self.r() && fits(t.subrange(self.r().len() as int, t.len() as int)) by { lemma_tmp(self.r(), t); }
    }
//@ fn src/storages/fs.rs FileSystem=S3Storage::delete_object
//@ question * S3StorageError::vfrom
//@ sig pub fn delete_object(&self, input: DeleteObjectRequest, fs: &mut Fs) -> (r: S3StorageResult<DeleteObjectOutput, DeleteObjectError>)
//@ spec
    requires old(fs).root() == self.r(), bucket_name_ok(input.bucket@),
    ensures
        final(fs).root() == old(fs).root(),
        forall|p: P| #[trigger] final(fs).files().contains_key(p) ==> old(fs).files().contains_key(p) && final(fs).files()[p] == old(fs).files()[p],
        forall|p: P| #[trigger] old(fs).files().contains_key(p) && !final(fs).files().contains_key(p) ==> key_ok(input.key@) && !dir_key(input.key) && (p == self.op(input.bucket, input.key) || p == self.mp(input.bucket, input.key)),
        final(fs).dirs() == old(fs).dirs() || key_ok(input.key@) && dir_key(input.key) && final(fs).dirs() == old(fs).dirs().remove(self.op(input.bucket, input.key)),
        final(fs).dirs() != old(fs).dirs() ==> forall|p: P| #[trigger] old(fs).files().contains_key(p) ==> !below(p, self.op(input.bucket, input.key)),
        r is Ok ==> key_ok(input.key@),
        r is Ok && !dir_key(input.key) ==> !final(fs).files().contains_key(self.op(input.bucket, input.key)),
        r is Ok && !dir_key(input.key) ==> !final(fs).files().contains_key(self.mp(input.bucket, input.key)),
        r is Err ==> r->Err_0 is Other,
        healthy() && key_ok(input.key@) && no_meta_dirs(*old(fs)) ==> r is Ok,
//@ hint start
    proof { if key_ok(input.key@) { lemma_opath(self.r(), input.bucket@, input.key@); lemma_service(self.r(), input.bucket@, input.key@); } }
//@ fn src/storages/fs.rs FileSystem=S3Storage::delete_objects
//@ question * S3StorageError::vfrom
//@ sig pub fn delete_objects(&self, input: DeleteObjectsRequest, fs: &mut Fs) -> (r: S3StorageResult<DeleteObjectsOutput, DeleteObjectsError>)
//@ spec
    requires old(fs).root() == self.r(), bucket_name_ok(input.bucket@),
    ensures
        only_gone(*final(fs), *old(fs), input.bucket@, input.delete.objects@),
        r is Ok ==> forall|k: Seq<char>| #[trigger] requested(input.delete.objects@, input.delete.objects@.len() as int, k) ==> key_ok(k),
        r is Ok ==> forall|k: Seq<char>| #[trigger] requested(input.delete.objects@, input.delete.objects@.len() as int, k) && present(*old(fs), input.bucket@, k) ==> reported(r->Ok_0.deleted, k),
        r is Ok ==> forall|k: Seq<char>| #[trigger] reported(r->Ok_0.deleted, k) ==> requested(input.delete.objects@, input.delete.objects@.len() as int, k),
        r is Ok ==> forall|k: Seq<char>| #[trigger] requested(input.delete.objects@, input.delete.objects@.len() as int, k) && !is_suffix(seq!['/'], k) ==> !present(*final(fs), input.bucket@, k),
        r is Ok ==> forall|k: Seq<char>| #[trigger] requested(input.delete.objects@, input.delete.objects@.len() as int, k) && present(*old(fs), input.bucket@, k) ==> !final(fs).files().contains_key(mpath(self.r(), input.bucket@, k)),
        r is Err ==> r->Err_0 is Other,
        healthy() && no_meta_dirs(*old(fs)) && (forall|k: Seq<char>| #[trigger] requested(input.delete.objects@, input.delete.objects@.len() as int, k) ==> key_ok(k)) ==> r is Ok,
//@ loop 0
        invariant
            all == input.delete.objects@, f0 == *old(fs), it0.v() == all, 0 <= it0.i() <= it0.v().len(), f0 == *fs, fs.root() == self.r(), bucket_name_ok(input.bucket@),
            forall|k: Seq<char>| #[trigger] requested(all, it0.i(), k) ==> key_ok(k),
            forall|k: Seq<char>| #[trigger] requested(all, it0.i(), k) && present(f0, input.bucket@, k) ==> listed(objects@, k),
            forall|x: int| 0 <= x < objects@.len() ==> requested(all, it0.i(), (#[trigger] objects@[x]).1@) && objects@[x].0@ == opath(f0.root(), input.bucket@, objects@[x].1@),
        ensures it0.i() == it0.v().len(),
        decreases it0.v().len() - it0.i(),
//@ loop 1
        invariant
            all == input.delete.objects@, f0 == *old(fs), it1.v() == objs, 0 <= it1.i() <= it1.v().len(), f0.root() == self.r(), bucket_name_ok(input.bucket@),
            forall|x: int| 0 <= x < objs.len() ==> requested(all, all.len() as int, (#[trigger] objs[x]).1@) && objs[x].0@ == opath(f0.root(), input.bucket@, objs[x].1@),
            forall|k: Seq<char>| #[trigger] requested(all, all.len() as int, k) ==> key_ok(k),
            only_gone(*fs, f0, input.bucket@, all),
            deleted@.len() == it1.i(),
            forall|x: int| 0 <= x < it1.i() ==> os((#[trigger] deleted@[x]).key) == Some(objs[x].1@),
            forall|x: int| 0 <= x < it1.i() && !is_suffix(seq!['/'], (#[trigger] objs[x]).1@) ==> !fs.files().contains_key(objs[x].0@),
            forall|x: int| 0 <= x < it1.i() ==> !fs.files().contains_key(mpath(f0.root(), input.bucket@, (#[trigger] objs[x]).1@)),
        ensures it1.i() == it1.v().len(),
        decreases it1.v().len() - it1.i(),
//@ hint start
    let ghost f0 = *fs; let ghost all = input.delete.objects@;
//@ hint before_loop1
    let ghost objs = objects@;
//@ hint loop0_body
    let ghost o1 = objects@; let ghost i1 = it0.i() - 1;
    proof {
        lemma_bucket(input.bucket@);
        assert(requested(all, it0.i(), all[i1].key@)); assert(requested(all, all.len() as int, all[i1].key@));
        assert forall|k: Seq<char>| #[trigger] requested(all, i1, k) implies requested(all, it0.i(), k) by { let j = choose|j: int| 0 <= j < i1 && (#[trigger] all[j]).key@ == k; assert(all[j].key@ == k); }
        assert forall|k: Seq<char>| #[trigger] requested(all, it0.i(), k) implies requested(all, i1, k) || k == all[i1].key@ by { let j = choose|j: int| 0 <= j < it0.i() && (#[trigger] all[j]).key@ == k; if j < i1 { assert(all[j].key@ == k); } }
        if key_ok(all[i1].key@) { lemma_opath(self.r(), input.bucket@, all[i1].key@); }
    }
//@ hint loop0_end
    proof {
        assert forall|k: Seq<char>| listed(o1, k) implies #[trigger] listed(objects@, k) by { let x = choose|x: int| 0 <= x < o1.len() && (#[trigger] o1[x]).1@ == k; assert(objects@[x] == o1[x]); }
        assert(objects@.len() > o1.len() ==> listed(objects@, objects@.last().1@)) by { if objects@.len() > o1.len() { assert(objects@[objects@.len() - 1].1@ == objects@.last().1@); } }
    }
//@ hint loop1_body
    let ghost g1 = *fs; let ghost i1 = it1.i() - 1;
    proof {
        assert(requested(all, all.len() as int, objs[i1].1@)); lemma_bucket(input.bucket@);
        let k = objs[i1].1@; assert(key_ok(k)); lemma_opath(self.r(), input.bucket@, k); lemma_service(self.r(), input.bucket@, k);
        let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).key@ == k;
        assert(all[j].key@ == k);
        assert(named_file(f0.root(), input.bucket@, all, opath(f0.root(), input.bucket@, k)));
        assert(named_file(f0.root(), input.bucket@, all, mpath(f0.root(), input.bucket@, k)));
    }
//@ hint end
    proof {
        assert forall|k: Seq<char>| listed(objs, k) implies #[trigger] reported(Some(deleted), k) by { let x = choose|x: int| 0 <= x < objs.len() && (#[trigger] objs[x]).1@ == k; assert(os(deleted@[x].key) == Some(k)); }
        assert forall|k: Seq<char>| #[trigger] reported(Some(deleted), k) implies listed(objs, k) by { let x = choose|x: int| 0 <= x < deleted@.len() && os((#[trigger] deleted@[x]).key) == Some(k); assert(objs[x].1@ == k); }
    }
//@ fn src/storages/fs.rs FileSystem=S3Storage::create_multipart_upload
//@ sig pub fn create_multipart_upload(&self, input: CreateMultipartUploadRequest) -> (r: S3StorageResult<CreateMultipartUploadOutput, CreateMultipartUploadError>)
//@ spec
    ensures r is Ok && r->Ok_0.upload_id is Some && is_uuid(r->Ok_0.upload_id.unwrap()@) && os(r->Ok_0.bucket) == Some(input.bucket@) && os(r->Ok_0.key) == Some(input.key@),
//@ fn src/storages/fs.rs FileSystem=S3Storage::upload_part
//@ question * S3StorageError::vfrom
//@ comb ok_or_else option
//@ sig pub fn upload_part(&self, input0: UploadPartRequest, fs: &mut Fs) -> (r: S3StorageResult<UploadPartOutput, UploadPartError>)
//@ spec
    requires
        old(fs).root() == self.r(),
        input0.body is Some ==> input0.body.unwrap().data().len() <= usize::MAX && input0.body.unwrap().taken().len() == 0,
    ensures
        same_files(*final(fs), *old(fs), set![self.part(input0.upload_id, input0.part_number)]), final(fs).dirs() == old(fs).dirs(),
        r is Err ==> r->Err_0 is Other,
        r is Ok ==> is_uuid(input0.upload_id@) && input0.body is Some && !input0.body.unwrap().broken() && os(r->Ok_0.e_tag) == Some(etag(input0.body.unwrap().data())),
        r is Ok ==> holds(*final(fs), self.part(input0.upload_id, input0.part_number), input0.body.unwrap().data()),
        // a body that fails leaves the part as it was, an upload id that is none everything
        input0.body is None || input0.body.unwrap().broken() || !is_uuid(input0.upload_id@) ==> same_files(*final(fs), *old(fs), set![]),
        same_at(*final(fs), *old(fs), self.part(input0.upload_id, input0.part_number)) || holds(*final(fs), self.part(input0.upload_id, input0.part_number), input0.body.unwrap().data()),
        healthy() && input0.body is Some && !input0.body.unwrap().broken() && is_uuid(input0.upload_id@) && no_tmp_dirs(*old(fs)) && old(fs).room(self.part(input0.upload_id, input0.part_number)) ==> r is Ok,
//@ hint start
    let ghost f0 = *fs;
    proof {
        if is_uuid(input0.upload_id@) { lemma_part_place(self.r(), input0.upload_id@, input0.part_number); }
        assert forall|t: P| is_tmp(self.r(), t) implies #[trigger] below(t, self.r()) && t.drop_last() == self.r() && fits(t.subrange(self.r().len() as int, t.len() as int)) by { lemma_tmp(self.r(), t); }
    }
//@ fn src/storages/fs.rs FileSystem=S3Storage::complete_multipart_upload
//@ question * S3StorageError::vfrom
//@ comb ok_or_else option
//@ sig pub fn complete_multipart_upload(&self, input0: CompleteMultipartUploadRequest, fs: &mut Fs) -> (r: S3StorageResult<CompleteMultipartUploadOutput, CompleteMultipartUploadError>)
//@ spec
    requires old(fs).root() == self.r(), bucket_name_ok(input0.bucket@),
    ensures
        same_but_parts(*final(fs), *old(fs), set![self.op(input0.bucket, input0.key), self.mp(input0.bucket, input0.key)], input0.upload_id@, parts_of(input0.multipart_upload).len() as int),
        more_dirs(*final(fs), *old(fs), self.op(input0.bucket, input0.key)),
        r is Err ==> r->Err_0 is Other,
        r is Ok ==> mp_good(*old(fs), input0),
        r is Ok ==> have_parts(*old(fs), input0.upload_id@, parts_of(input0.multipart_upload).len() as int),
        r is Ok ==> holds(*final(fs), self.op(input0.bucket, input0.key), assembled(*old(fs), input0.upload_id@, parts_of(input0.multipart_upload).len() as int)),
        r is Ok ==> !final(fs).files().contains_key(self.mp(input0.bucket, input0.key)),
        r is Ok ==> parts_gone(*final(fs), input0.upload_id@, parts_of(input0.multipart_upload).len() as int),
        r is Ok ==> os(r->Ok_0.e_tag) == Some(etag(assembled(*old(fs), input0.upload_id@, parts_of(input0.multipart_upload).len() as int))),
        r is Ok ==> os(r->Ok_0.bucket) == Some(input0.bucket@) && os(r->Ok_0.key) == Some(input0.key@),
        // a completion that fails leaves the object as it was, or complete
        !mp_good(*old(fs), input0) || !have_parts(*old(fs), input0.upload_id@, parts_of(input0.multipart_upload).len() as int) ==> same_files(*final(fs), *old(fs), set![]),
        !mp_good(*old(fs), input0) || !parts_exist(*old(fs), input0.upload_id@, parts_of(input0.multipart_upload).len() as int) ==> final(fs).dirs() == old(fs).dirs(),
        same_at(*final(fs), *old(fs), self.op(input0.bucket, input0.key)) || holds(*final(fs), self.op(input0.bucket, input0.key), assembled(*old(fs), input0.upload_id@, parts_of(input0.multipart_upload).len() as int)),
        !holds(*final(fs), self.op(input0.bucket, input0.key), assembled(*old(fs), input0.upload_id@, parts_of(input0.multipart_upload).len() as int)) ==> same_files(*final(fs), *old(fs), set![]),
        mp_good(*old(fs), input0) && !parts_exist(*old(fs), input0.upload_id@, parts_of(input0.multipart_upload).len() as int) ==> r is Err && ecode(r) is InvalidPart,
        mp_fine(input0) && parts_exist(*old(fs), input0.upload_id@, parts_of(input0.multipart_upload).len() as int) && !old(fs).exists(bdir(self.r(), input0.bucket@)) ==> r is Err && ecode(r) is NoSuchBucket,
        healthy() && mp_good(*old(fs), input0) && have_parts(*old(fs), input0.upload_id@, parts_of(input0.multipart_upload).len() as int) && old(fs).dirs().contains(bdir(self.r(), input0.bucket@)) && way_free(*old(fs), self.op(input0.bucket, input0.key)) && no_tmp_dirs(*old(fs)) && no_meta_dirs(*old(fs)) ==> r is Ok,
//@ loop 0
        invariant
            f0 == *old(fs), *fs == f0, fs.root() == self.r(), ps == parts_of(input0.multipart_upload), upload_id@ == input0.upload_id@,
            it0.v() == ps, 0 <= it0.i() <= it0.v().len() <= i64::MAX, cnt == it0.i(), part_paths@.len() == it0.i(),
            it0.i() > 0 ==> is_uuid(upload_id@),
            forall|i: int| 0 <= i < it0.i() ==> (#[trigger] ps[i]).part_number == Some((i + 1) as i64),
            forall|i: int| 0 <= i < it0.i() ==> (#[trigger] part_paths@[i])@ == pp(f0.root(), upload_id@, i),
            forall|i: int| 0 <= i < it0.i() ==> f0.exists(#[trigger] pp(f0.root(), upload_id@, i)),
        ensures it0.i() == it0.v().len(),
        decreases it0.v().len() - it0.i(),
//@ hint loop0_body
    proof { let i = it0.i() - 1; assert(ps[i] == part); if is_uuid(upload_id@) { lemma_part_place(self.r(), upload_id@, (i + 1) as i64); } assert(pp(f0.root(), upload_id@, i) == ppath(f0.root(), upload_id@, (i + 1) as i64)); }
//@ loop 1
        invariant
            f0 == *old(fs), f0.root() == self.r(), fs.root() == self.r(), n == part_paths@.len(), n == parts_of(input0.multipart_upload).len(), upload_id@ == input0.upload_id@, bucket_name_ok(input0.bucket@),
            mp_good(f0, input0), parts_exist(f0, upload_id@, n), more_dirs(*fs, f0, self.op(input0.bucket, input0.key)), it1.v().len() == n, 0 <= it1.i() <= n <= i64::MAX,
            n > 0 ==> is_uuid(upload_id@),
            it1.v() == part_paths@,
            forall|i: int| 0 <= i < n ==> (#[trigger] part_paths@[i])@ == pp(f0.root(), upload_id@, i),
            forall|i: int| 0 <= i < it1.i() ==> f0.files().contains_key(#[trigger] pp(f0.root(), upload_id@, i)),
            is_tmp(self.r(), writer.path()), writer.path() == w1.path(), fs.only(f1, set![w1.path()]), f1.only(f0, set![w1.path()]), fs.dirs() == f1.dirs(),
            fs.files().contains_key(w1.path()), fs.files()[w1.path()] == writer.data(), w1.data().len() == 0,
            writer.data() == assembled(f0, upload_id@, it1.i()),
        ensures it1.i() == it1.v().len(),
        decreases it1.v().len() - it1.i(),
//@ loop 2
        invariant
            f0 == *old(fs), f0.root() == self.r(), fs.root() == self.r(), n == part_paths@.len(), n == parts_of(input0.multipart_upload).len(), upload_id@ == input0.upload_id@, bucket_name_ok(input0.bucket@),
            mp_good(f0, input0), parts_exist(f0, upload_id@, n), more_dirs(*fs, f0, self.op(input0.bucket, input0.key)), it2.v().len() == n, 0 <= it2.i() <= n <= i64::MAX,
            n > 0 ==> is_uuid(upload_id@),
            it2.v() == part_paths@,
            forall|i: int| 0 <= i < n ==> (#[trigger] part_paths@[i])@ == pp(f0.root(), upload_id@, i),
            forall|i: int| 0 <= i < n ==> f2.files().contains_key(#[trigger] pp(f0.root(), upload_id@, i)),
            forall|i: int| 0 <= i < it2.i() ==> !fs.files().contains_key(#[trigger] pp(f0.root(), upload_id@, i)),
            same_but_parts(*fs, f0, set![self.op(input0.bucket, input0.key)], upload_id@, n), fs.dirs() == f2.dirs(), have_parts(f0, upload_id@, n), holds(*fs, self.op(input0.bucket, input0.key), assembled(f0, upload_id@, n)),
            forall|i: int| it2.i() <= i < n ==> fs.files().contains_key(#[trigger] pp(f0.root(), upload_id@, i)),
        ensures it2.i() == it2.v().len(),
        decreases it2.v().len() - it2.i(),
//@ hint start
    let ghost f0 = *fs; let ghost ps = parts_of(input0.multipart_upload);
    proof {
        lemma_bucket(input0.bucket@); lemma_at(self.r(), input0.bucket@); lemma_service(self.r(), input0.bucket@, input0.key@);
        if key_ok(input0.key@) { lemma_opath(self.r(), input0.bucket@, input0.key@); lemma_way(self.r(), input0.bucket@, input0.key@); }
        assert forall|t: P| is_tmp(self.r(), t) implies #[trigger] below(t, self.r()) && t.drop_last() == self.r() && fits(t.subrange(self.r().len() as int, t.len() as int)) by { lemma_tmp(self.r(), t); }
    }
//@ hint before_loop1
    let ghost n = part_paths@.len() as int; let ghost f1 = *fs; let ghost w1 = writer;
    proof { if n > 0 { lemma_pp(self.r(), upload_id@, n); } }
//@ hint loop1_body
    proof { lemma_pp(self.r(), upload_id@, n); lemma_service(self.r(), input0.bucket@, input0.key@); let i = it1.i() - 1; assert(part_paths@[i]@ == pp(f0.root(), upload_id@, i)); }
//@ hint before_loop2
    let ghost f2 = *fs;
//@ hint loop2_body
    proof { lemma_pp(self.r(), upload_id@, n); lemma_service(self.r(), input0.bucket@, input0.key@); let i = it2.i() - 1; assert(part_paths@[i]@ == pp(f0.root(), upload_id@, i)); }
//@ fn src/storages/fs.rs FileSystem=S3Storage::list_objects
//@ question * S3StorageError::vfrom
//@ comb unwrap_or option
//@ sig pub fn list_objects(&self, input: ListObjectsRequest, fs: &Fs) -> (r: S3StorageResult<ListObjectsOutput, ListObjectsError>)
//@ spec
    requires fs.root() == self.r(), bucket_name_ok(input.bucket@), tree(*fs),
    ensures
        r is Ok ==> fs.exists(bdir(self.r(), input.bucket@)) && r->Ok_0.contents is Some && is_listing(*fs, bdir(self.r(), input.bucket@), os(input.prefix), r->Ok_0.contents.unwrap()@),
        r is Ok ==> os(r->Ok_0.name) == Some(input.bucket@),
        r is Err ==> r->Err_0 is Other,
        r is Err && ecode(r) is NoSuchBucket <==> !fs.exists(bdir(self.r(), input.bucket@)),
        healthy() && fs.dirs().contains(bdir(self.r(), input.bucket@)) ==> r is Ok,
//@ closure 0
|lhs: &Object, rhs: &Object| -> (o: core::cmp::Ordering) ensures ordi(o) == scmp(obj_key(*lhs), obj_key(*rhs))
//@ loop 0
        invariant
            fs.root() == self.r(), tree(*fs), b == bdir(self.r(), input.bucket@), below(b, self.r()), pre == os(input.prefix), path@ == b, fs.exists(b),
            walk(*fs, b, pre, objects@, src, dir_queue@, vis, None, no_ps(), 0),
        ensures dir_queue@.len() == 0,
        decreases fs.dirs().insert(b).difference(vis).len(),
//@ loop 1
        invariant
            fs.root() == self.r(), tree(*fs), b == bdir(self.r(), input.bucket@), below(b, self.r()), pre == os(input.prefix), path@ == b, fs.exists(b),
            entries.v() == ents, walk(*fs, b, pre, objects@, src, dir_queue@, vis, Some(d), ents, entries.i()),
        ensures entries.i() == ents.len(),
        decreases ents.len() - entries.i(),
//@ hint start
    let ghost b = bdir(self.r(), input.bucket@); let ghost pre = os(input.prefix); let ghost mut src = no_ps(); let ghost mut vis: Set<P> = Set::empty();
    proof { lemma_bucket(input.bucket@); lemma_at(self.r(), input.bucket@); reveal_strlit(""); }
//@ hint before_loop0
    proof { assert(objects@ =~= Seq::empty()); lemma_start(*fs, b, pre, dir_queue@); }
//@ hint loop0_start
    let ghost q0 = dir_queue@; let ghost d = b; let ghost ents = no_ps();
    proof { lemma_queue(*fs, b, pre, objects@, src, dir_queue@, vis); }
//@ hint after_let_entries
    let ghost ents = entries.v(); let ghost d = next_dir(*fs, q0, dir_queue@, ents);
    proof { lemma_taken(*fs, q0, dir_queue@, ents); lemma_pop(*fs, b, pre, objects@, src, q0, dir_queue@, d, vis, ents); }
//@ hint loop1_start
    proof {
        let i = entries.i();
        if i < ents.len() {
            lemma_next(*fs, b, pre, objects@, src, dir_queue@, vis, d, ents, i);
            src = src_step(*fs, b, pre, src, ents[i]);
        }
    }
//@ hint after_loop1
    proof {
        lemma_read(*fs, b, pre, objects@, src, dir_queue@, vis, d, ents);
        assert(fs.dirs().insert(b).difference(vis.insert(d)) =~= fs.dirs().insert(b).difference(vis).remove(d));
        vis = vis.insert(d);
    }
//@ hint after_loop0
    proof { lemma_walked(*fs, b, pre, objects@, src, dir_queue@, vis); lemma_resort(*fs, b, pre, objects@, src); }
//@ fn src/storages/fs.rs FileSystem=S3Storage::list_objects_v2
//@ question * S3StorageError::vfrom
//@ comb unwrap_or option
//@ sig pub fn list_objects_v2(&self, input: ListObjectsV2Request, fs: &Fs) -> (r: S3StorageResult<ListObjectsV2Output, ListObjectsV2Error>)
//@ spec
    requires fs.root() == self.r(), bucket_name_ok(input.bucket@), tree(*fs),
    ensures
        r is Ok ==> fs.exists(bdir(self.r(), input.bucket@)) && r->Ok_0.contents is Some && is_listing(*fs, bdir(self.r(), input.bucket@), os(input.prefix), r->Ok_0.contents.unwrap()@),
        r is Ok ==> os(r->Ok_0.name) == Some(input.bucket@),
        r is Ok ==> r->Ok_0.key_count == Some(r->Ok_0.contents.unwrap()@.len() as i64),
        r is Err ==> r->Err_0 is Other,
        r is Err && ecode(r) is NoSuchBucket <==> !fs.exists(bdir(self.r(), input.bucket@)),
        healthy() && fs.dirs().contains(bdir(self.r(), input.bucket@)) ==> r is Ok,
//@ closure 0
|lhs: &Object, rhs: &Object| -> (o: core::cmp::Ordering) ensures ordi(o) == scmp(obj_key(*lhs), obj_key(*rhs))
//@ loop 0
        invariant
            fs.root() == self.r(), tree(*fs), b == bdir(self.r(), input.bucket@), below(b, self.r()), pre == os(input.prefix), path@ == b, fs.exists(b),
            walk(*fs, b, pre, objects@, src, dir_queue@, vis, None, no_ps(), 0),
        ensures dir_queue@.len() == 0,
        decreases fs.dirs().insert(b).difference(vis).len(),
//@ loop 1
        invariant
            fs.root() == self.r(), tree(*fs), b == bdir(self.r(), input.bucket@), below(b, self.r()), pre == os(input.prefix), path@ == b, fs.exists(b),
            entries.v() == ents, walk(*fs, b, pre, objects@, src, dir_queue@, vis, Some(d), ents, entries.i()),
        ensures entries.i() == ents.len(),
        decreases ents.len() - entries.i(),
//@ hint start
    let ghost b = bdir(self.r(), input.bucket@); let ghost pre = os(input.prefix); let ghost mut src = no_ps(); let ghost mut vis: Set<P> = Set::empty();
    proof { lemma_bucket(input.bucket@); lemma_at(self.r(), input.bucket@); reveal_strlit(""); }
//@ hint before_loop0
    proof { assert(objects@ =~= Seq::empty()); lemma_start(*fs, b, pre, dir_queue@); }
//@ hint loop0_start
    let ghost q0 = dir_queue@; let ghost d = b; let ghost ents = no_ps();
    proof { lemma_queue(*fs, b, pre, objects@, src, dir_queue@, vis); }
//@ hint after_let_entries
    let ghost ents = entries.v(); let ghost d = next_dir(*fs, q0, dir_queue@, ents);
    proof { lemma_taken(*fs, q0, dir_queue@, ents); lemma_pop(*fs, b, pre, objects@, src, q0, dir_queue@, d, vis, ents); }
//@ hint loop1_start
    proof {
        let i = entries.i();
        if i < ents.len() {
            lemma_next(*fs, b, pre, objects@, src, dir_queue@, vis, d, ents, i);
            src = src_step(*fs, b, pre, src, ents[i]);
        }
    }
//@ hint after_loop1
    proof {
        lemma_read(*fs, b, pre, objects@, src, dir_queue@, vis, d, ents);
        assert(fs.dirs().insert(b).difference(vis.insert(d)) =~= fs.dirs().insert(b).difference(vis).remove(d));
        vis = vis.insert(d);
    }
//@ hint after_loop0
    proof { lemma_walked(*fs, b, pre, objects@, src, dir_queue@, vis); lemma_resort(*fs, b, pre, objects@, src); axiom_vec_lens::<Object>(); }
//@ fn src/storages/fs.rs FileSystem=S3Storage::list_buckets
//@ question * S3StorageError::vfrom
//@ sig pub fn list_buckets(&self, _input: ListBucketsRequest, fs: &Fs) -> (r: S3StorageResult<ListBucketsOutput, ListBucketsError>)
//@ spec
    requires fs.root() == self.r(), tree(*fs),
    ensures
        r is Ok ==> r->Ok_0.buckets is Some && is_bucket_list(*fs, r->Ok_0.buckets.unwrap()@),
        r is Err ==> r->Err_0 is Other,
        healthy() ==> r is Ok,
//@ loop 0
        invariant
            fs.root() == self.r(), tree(*fs),
            iter.v() == ents, entries_of(*fs, self.r(), ents), 0 <= iter.i() <= ents.len(), bucket_walk(*fs, buckets@, ents, iter.i()),
        ensures iter.i() == ents.len(),
        decreases ents.len() - iter.i(),
//@ hint after_let_iter
    let ghost ents = iter.v();
//@ hint loop0_start
    proof { if iter.i() < ents.len() { lemma_bucket_next(*fs, buckets@, ents, iter.i()); } }
//@ hint after_loop0
    proof { lemma_buckets(*fs, buckets@, ents); }
//@ text
}
