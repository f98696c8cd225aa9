F = "storages/fs.rs"
rf("list-vec-stack", "u05_fs",
   (F, "let mut dir_queue = VecDeque::new();\n        dir_queue.push_back(path.clone());", "let mut dir_queue = vec![path.clone()];"),
   (F, "dir_queue.pop_front()", "dir_queue.pop()"), (F, "dir_queue.push_back(entry.path());", "dir_queue.push(entry.path());"), (F, "use std::collections::{HashMap, VecDeque};", "use std::collections::HashMap;"))
rf("list-continue-first", "u05_fs",
   (F, """                if file_type.is_dir() {
                    dir_queue.push_back(entry.path());
                } else {
                    let file_path = entry.path();""", """                if file_type.is_dir() {
                    dir_queue.push_back(entry.path());
                    continue;
                }
                {
                    let file_path = entry.path();"""))
rf("list-key-string", "u05_fs",
   (F, """                    let key = trace_try!(file_path.strip_prefix(&path));
                    if let Some(ref prefix) = input.prefix {
                        if !key.to_string_lossy().as_ref().starts_with(prefix) {""", """                    let key = trace_try!(file_path.strip_prefix(&path)).to_string_lossy();
                    if let Some(ref prefix) = input.prefix {
                        if !key.as_ref().starts_with(prefix) {"""),
   (F, "key: Some(key.to_string_lossy().into()),", "key: Some(key.into()),"))
rf("list-prefix-match", "u05_fs",
   (F, """                    if let Some(ref prefix) = input.prefix {
                        if !key.to_string_lossy().as_ref().starts_with(prefix) {
                            continue;
                        }
                    }
""", """                    match input.prefix {
                        Some(ref prefix) if !key.to_string_lossy().as_ref().starts_with(prefix) => continue,
                        _ => {}
                    }
"""))
rf("list-prefix-hoist", "u05_fs",
   (F, """                    if let Some(ref prefix) = input.prefix {
                        if !key.to_string_lossy().as_ref().starts_with(prefix) {
                            continue;
                        }
                    }
""", """                    let prefix = input.prefix.as_deref().unwrap_or("");
                    if !key.to_string_lossy().as_ref().starts_with(prefix) {
                        continue;
                    }
"""))
rf("list-meta-first", "u05_fs",
   (F, """                    let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));
                    let size = metadata.len();

                    objects""", """                    let size = metadata.len();
                    let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));

                    objects"""))
rf("list-loop-match", "u05_fs",
   (F, "while let Some(dir) = dir_queue.pop_front() {", "loop {\n            let dir = match dir_queue.pop_front() {\n                Some(dir) => dir,\n                None => break,\n            };"))
rf("list-is-empty", "u05_fs",
   (F, "while let Some(dir) = dir_queue.pop_front() {", "while !dir_queue.is_empty() {\n            let dir = match dir_queue.pop_front() {\n                Some(dir) => dir,\n                None => break,\n            };"))
rf("list-object-var", "u05_fs",
   (F, """                    objects.push(Object {
                        e_tag: None,
                        key: Some(key.to_string_lossy().into()),
                        last_modified: Some(last_modified),
                        owner: None,
                        size: Some(trace_try!(size.try_into())),
                        storage_class: None,
                    });""", """                    let object = Object {
                        key: Some(key.to_string_lossy().into()),
                        last_modified: Some(last_modified),
                        size: Some(trace_try!(size.try_into())),
                        ..Object::default()
                    };
                    objects.push(object);"""))
rf("list-helper", "u05_fs",
   (F, """                    let metadata = trace_try!(entry.metadata().await);
                    let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));
                    let size = metadata.len();

                    objects.push(Object {
                        e_tag: None,
                        key: Some(key.to_string_lossy().into()),
                        last_modified: Some(last_modified),
                        owner: None,
                        size: Some(trace_try!(size.try_into())),
                        storage_class: None,
                    });""", """                    let key = key.to_string_lossy().into();
                    let object = trace_try!(describe_object(key, &entry).await);
                    objects.push(object);"""),
   (F, "/// wrap operation error\n", """/// describe an object
async fn describe_object(key: String, entry: &async_fs::DirEntry) -> io::Result<Object> {
    let metadata = entry.metadata().await?;
    let last_modified = time::to_rfc3339(metadata.modified()?);
    let size = i64::try_from(metadata.len()).map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
    Ok(Object {
        e_tag: None,
        key: Some(key),
        last_modified: Some(last_modified),
        owner: None,
        size: Some(size),
        storage_class: None,
    })
}

/// wrap operation error
"""))
rf("list-bucket-helper", "u05_fs",
   (F, """        let path = trace_try!(self.get_bucket_path(&input.bucket));

        if !path.exists() {
            let err = code_error!(NoSuchBucket, "The specified bucket does not exist.");
            return Err(err.into());
        }
""", """        let path = self.require_bucket(&input.bucket)?;
"""),
   (F, "    /// resolve metadata path under", """    /// the directory of a bucket which exists
    fn require_bucket(&self, bucket: &str) -> Result<PathBuf, S3Error> {
        let path = match self.get_bucket_path(bucket) {
            Ok(path) => path,
            Err(e) => return Err(internal_error!(e)),
        };
        if !path.exists() {
            return Err(code_error!(NoSuchBucket, "The specified bucket does not exist."));
        }
        Ok(path)
    }

    /// resolve metadata path under"""),
   (F, "use crate::errors::{S3StorageError, S3StorageResult};", "use crate::errors::{S3Error, S3StorageError, S3StorageResult};"))
rf("buckets-name-first", "u05_fs",
   (F, """            if file_type.is_dir() {
                let file_name = entry.file_name();
                let name = file_name.to_string_lossy();
                if S3Path::check_bucket_name(&*name) {""", """            if !file_type.is_dir() {
                continue;
            }
            {
                let file_name = entry.file_name();
                let name = file_name.to_string_lossy();
                if S3Path::check_bucket_name(name.as_ref()) {"""))
rf("buckets-direct-date", "u05_fs",
   (F, """                    let file_meta = trace_try!(entry.metadata().await);
                    let creation_date = trace_try!(file_meta.created());
                    buckets.push(Bucket {
                        creation_date: Some(time::to_rfc3339(creation_date)),
                        name: Some(name.into()),
                    });""", """                    let created = trace_try!(trace_try!(entry.metadata().await).created());
                    let bucket = Bucket {
                        name: Some(name.into()),
                        creation_date: Some(time::to_rfc3339(created)),
                    };
                    buckets.push(bucket);"""))
rf("put-bucket-var", "u05_fs",
   (F, """        if !trace_try!(self.get_bucket_path(&bucket)).exists() {""", """        let bucket_path = trace_try!(self.get_bucket_path(&bucket));
        let is_missing = !bucket_path.exists();
        if is_missing {"""))
rf("put-err-first", "u05_fs",
   (F, """        if ret.is_err() {
            trace_try!(async_fs::remove_file(&tmp_path).await);
        }
        let size = trace_try!(ret);""", """        let size = match ret {
            Ok(size) => size,
            Err(err) => {
                trace_try!(async_fs::remove_file(&tmp_path).await);
                return Err(internal_error!(err).into());
            }
        };"""))
rf("put-dir-early", "u05_fs",
   (F, """            if content_length == Some(0) {
                let object_path = trace_try!(self.get_object_path(&bucket, &key));
                trace_try!(async_fs::create_dir_all(&object_path).await);
                let output = PutObjectOutput::default();
                return Ok(output);
            }
            let err = code_error!(
                UnexpectedContent,
                "Unexpected request body when creating a directory object."
            );
            return Err(err.into());""", """            if content_length != Some(0) {
                let err = code_error!(
                    UnexpectedContent,
                    "Unexpected request body when creating a directory object."
                );
                return Err(err.into());
            }
            let object_path = trace_try!(self.get_object_path(&bucket, &key));
            trace_try!(async_fs::create_dir_all(&object_path).await);
            return Ok(PutObjectOutput::default());"""))
rf("put-meta-match", "u05_fs",
   (F, """        if let Some(ref metadata) = metadata {
            trace_try!(self.save_metadata(&bucket, &key, metadata).await);
        } else {
            trace_try!(self.delete_metadata(&bucket, &key).await);
        }""", """        match metadata {
            Some(ref metadata) => trace_try!(self.save_metadata(&bucket, &key, metadata).await),
            None => trace_try!(self.delete_metadata(&bucket, &key).await),
        }"""))
rf("put-helper", "u05_fs",
   (F, """        if let Some(ref metadata) = metadata {
            trace_try!(self.save_metadata(&bucket, &key, metadata).await);
        } else {
            trace_try!(self.delete_metadata(&bucket, &key).await);
        }""", """        trace_try!(self.replace_metadata(&bucket, &key, metadata.as_ref()).await);"""),
   (F, "    /// get md5 sum\n", """    /// save or delete metadata
    async fn replace_metadata(
        &self,
        bucket: &str,
        key: &str,
        metadata: Option<&HashMap<String, String>>,
    ) -> io::Result<()> {
        match metadata {
            Some(metadata) => self.save_metadata(bucket, key, metadata).await,
            None => self.delete_metadata(bucket, key).await,
        }
    }

    /// get md5 sum
"""))
rf("put-storage-class", "u05_fs",
   (F, """            let is_valid = ["STANDARD", "REDUCED_REDUNDANCY"].contains(&storage_class.as_str());
            if !is_valid {""", """            if storage_class != "STANDARD" && storage_class != "REDUCED_REDUNDANCY" {"""))
rf("part-etag-inline", "u05_fs",
   (F, """        let e_tag = format!("\\"{}\\"", md5_sum);

        let output = UploadPartOutput {
            e_tag: Some(e_tag),
            ..UploadPartOutput::default()
        };

        Ok(output)""", """        Ok(UploadPartOutput {
            e_tag: Some(format!("\\"{}\\"", md5_sum)),
            ..UploadPartOutput::default()
        })"""))
rf("delete-helper", "u05_fs",
   (F, """            if path.is_dir() {
                let mut dir = trace_try!(async_fs::read_dir(&path).await);
                let is_empty = dir.next().await.is_none();
                if is_empty {
                    trace_try!(async_fs::remove_dir(&path).await);
                }
            }
        } else {""", """            trace_try!(remove_empty_dir(&path).await);
        } else {"""),
   (F, "/// wrap operation error\n", """/// remove a directory if nothing is in it
async fn remove_empty_dir(path: &Path) -> io::Result<()> {
    if path.is_dir() {
        let mut dir = async_fs::read_dir(path).await?;
        if dir.next().await.is_none() {
            async_fs::remove_dir(path).await?;
        }
    }
    Ok(())
}

/// wrap operation error
"""))
rf("delete-objects-one-loop-form", "u05_fs",
   (F, """            let is_dir_key = object.key.ends_with('/');
            if (is_dir_key && path.is_dir()) || (!is_dir_key && path.is_file()) {
                objects.push((path, object.key));
            }""", """            let found = if object.key.ends_with('/') {
                path.is_dir()
            } else {
                path.is_file()
            };
            if found {
                objects.push((path, object.key));
            }"""))
rf("delete-objects-destructure", "u05_fs",
   (F, """        for object in input.delete.objects {
            let path = trace_try!(self.get_object_path(&input.bucket, &object.key));""", """        let DeleteObjectsRequest { bucket, delete, .. } = input;
        for object in delete.objects {
            let path = trace_try!(self.get_object_path(&bucket, &object.key));"""),
   (F, "trace_try!(self.delete_metadata(&input.bucket, &key).await);\n            deleted", "trace_try!(self.delete_metadata(&bucket, &key).await);\n            deleted"))
rf("get-len-helper", "u05_fs",
   (F, """                    last.and_then(|x| x.checked_add(1))
                        .unwrap_or(file_len)
                        .min(file_len)
                        .wrapping_sub(first)""", """                    let end = match last {
                        Some(x) => x.checked_add(1).unwrap_or(file_len).min(file_len),
                        None => file_len,
                    };
                    end.wrapping_sub(first)"""))
rf("get-range-match", "u05_fs",
   (F, """        let parse_range = |s: &str| {
            Range::from_header_str(s).map_err(|err| invalid_request!("Invalid header: range", err))
        };
        let range: Option<Range> = input.range.as_deref().map(parse_range).transpose()?;
""", """        let range: Option<Range> = match input.range {
            Some(ref s) => {
                let range = Range::from_header_str(s)
                    .map_err(|err| invalid_request!("Invalid header: range", err))?;
                Some(range)
            }
            None => None,
        };
"""))
rf("copy-order", "u05_fs",
   (F, """        let src_path = trace_try!(self.get_object_path(bucket, key));
        let dst_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
""", """        let dst_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
        let src_path = trace_try!(self.get_object_path(bucket, key));
"""))
rf("copy-meta", "u05_fs",
   (F, """        if let Some(ref metadata) = trace_try!(self.load_metadata(bucket, key).await) {
            trace_try!(
                self.save_metadata(&input.bucket, &input.key, metadata)
                    .await
            );
        } else {""", """        let src_metadata = trace_try!(self.load_metadata(bucket, key).await);
        if let Some(metadata) = src_metadata.as_ref() {
            trace_try!(
                self.save_metadata(&input.bucket, &input.key, metadata)
                    .await
            );
        } else {"""))
rf("objpath-any", "u05_fs",
   (F, """        let mut is_below = false;
        for component in file_path.components() {
            match component {
                Component::Normal(_) => is_below = true,
                Component::CurDir => {}
                Component::ParentDir | Component::RootDir | Component::Prefix(_) => {
                    return Err(io::Error::new(io::ErrorKind::InvalidInput, "Invalid key"));
                }
            }
        }
        if !is_below {""", """        let mut normal_count: usize = 0;
        for component in file_path.components() {
            match component {
                Component::Normal(_) => normal_count = normal_count.saturating_add(1),
                Component::CurDir => continue,
                _ => return Err(io::Error::new(io::ErrorKind::InvalidInput, "Invalid key")),
            }
        }
        if normal_count == 0 {"""))
rf("md5-while", "u05_fs",
   (F, """            if nread == 0 {
                break;
            }
            md5_hash.update(buf.get(..nread).unwrap_or_else(|| {
                panic!(
                    "nread is larger than buffer size: nread = {}, size = {}",
                    nread,
                    buf.len()
                )
            }));""", """            if nread > 0 {
                md5_hash.update(buf.get(..nread).unwrap_or_else(|| {
                    panic!(
                        "nread is larger than buffer size: nread = {}, size = {}",
                        nread,
                        buf.len()
                    )
                }));
            } else {
                break;
            }"""))
rf("md5-bufsize", "u05_fs", (F, "vec![0; 4_usize.wrapping_mul(1024).wrapping_mul(1024)]", "vec![0_u8; 65536]"))
rf("complete-parts", "u05_fs",
   (F, """        let multipart_upload = if let Some(multipart_upload) = multipart_upload {
            multipart_upload
        } else {
            let err = code_error!(InvalidPart, "Missing multipart_upload");
            return Err(err.into());
        };""", """        let multipart_upload = multipart_upload
            .ok_or_else(|| code_error!(InvalidPart, "Missing multipart_upload"))?;"""))
rf("complete-order", "u05_fs",
   (F, """            if part_number != cnt {
                trace_try!(Err(io::Error::new(
                    io::ErrorKind::Other,
                    "InvalidPartOrder"
                )));
            }""", """            if part_number != cnt {
                let err = io::Error::new(io::ErrorKind::Other, "InvalidPartOrder");
                return Err(internal_error!(err).into());
            }"""))
rf("complete-iter", "u05_fs", (F, "for part_path in &part_paths {", "for part_path in part_paths.iter() {"))
rf("meta-path-inline", "u05_fs",
   (F, """        let encode = |s: &str| base64_simd::URL_SAFE_NO_PAD.encode_to_string(s);

        let file_path_str = format!(
            ".bucket-{}.object-{}.metadata.json",
            encode(bucket),
            encode(key),
        );""", """        let bucket_part = base64_simd::URL_SAFE_NO_PAD.encode_to_string(bucket);
        let key_part = base64_simd::URL_SAFE_NO_PAD.encode_to_string(key);
        let file_path_str = format!(".bucket-{}.object-{}.metadata.json", bucket_part, key_part);"""))
rf("load-meta-early", "u05_fs",
   (F, """        if path.exists() {
            let content = async_fs::read(&path).await?;
            let map = serde_json::from_slice(&content)
                .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
            Ok(Some(map))
        } else {
            Ok(None)
        }""", """        if !path.exists() {
            return Ok(None);
        }
        let content = async_fs::read(&path).await?;
        let map = serde_json::from_slice(&content)
            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
        Ok(Some(map))"""))
