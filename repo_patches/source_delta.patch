From d1f31d7f09c7134ae48c3772710d91df0986c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 01/27] fix: clamp the last byte position of a range to the
 object size

---
 src/storages/fs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 551c52b..a9fd52c 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -369,8 +369,11 @@ impl S3Storage for FileSystem {
                     //      len = last + 1 - first
                     // or   len = file_len - first
 
+                    // where last is clamped to the last byte of the object
+
                     last.and_then(|x| x.checked_add(1))
                         .unwrap_or(file_len)
+                        .min(file_len)
                         .wrapping_sub(first)
                 }
                 Some(Range::Suffix { last }) => {
-- 
2.43.0


From 3c4f5dde7cdb4432254e37ecaa6843bdc031b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 02/27] fix: match UploadPart only on object paths

---
 src/ops/upload_part.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ops/upload_part.rs b/src/ops/upload_part.rs
index 7e6276c..7951a5f 100644
--- a/src/ops/upload_part.rs
+++ b/src/ops/upload_part.rs
@@ -22,6 +22,7 @@ pub struct Handler;
 impl S3Handler for Handler {
     fn is_match(&self, ctx: &'_ ReqContext<'_>) -> bool {
         bool_try!(ctx.req.method() == Method::PUT);
+        bool_try!(ctx.path.is_object());
         let qs = bool_try_some!(ctx.query_strings.as_ref());
         qs.get("partNumber").is_some() && qs.get("uploadId").is_some()
     }
-- 
2.43.0


From c94b646c95d7ff3149c8defd179d955640ee118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 03/27] fix: accept the part list of CompleteMultipartUpload

---
 src/ops/complete_multipart_upload.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ops/complete_multipart_upload.rs b/src/ops/complete_multipart_upload.rs
index 7008694..d12b4d4 100644
--- a/src/ops/complete_multipart_upload.rs
+++ b/src/ops/complete_multipart_upload.rs
@@ -113,8 +113,8 @@ mod xml {
     /// `CompletedMultipartUpload`
     pub struct CompletedMultipartUpload {
         /// Part
-        #[serde(rename = "Part")]
-        parts: Option<Vec<CompletedPart>>,
+        #[serde(rename = "Part", default)]
+        parts: Vec<CompletedPart>,
     }
 
     /// `CompletedPart`
@@ -131,7 +131,7 @@ mod xml {
     impl From<CompletedMultipartUpload> for super::CompletedMultipartUpload {
         fn from(m: CompletedMultipartUpload) -> Self {
             Self {
-                parts: m.parts.map(|v| v.into_iter().map(From::from).collect()),
+                parts: Some(m.parts.into_iter().map(From::from).collect()),
             }
         }
     }
-- 
2.43.0


From 768ecb307829e73fe9f3de22aa884ea17499fd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 04/27] fix: require the final empty chunk of an aws-chunked
 payload

---
 src/streams/aws_chunked_stream.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/streams/aws_chunked_stream.rs b/src/streams/aws_chunked_stream.rs
index c2d3215..4534350 100644
--- a/src/streams/aws_chunked_stream.rs
+++ b/src/streams/aws_chunked_stream.rs
@@ -155,7 +155,7 @@ impl AwsChunkedStream {
                                 match Self::read_meta_bytes(body.as_mut(), prev_bytes, &mut buf)
                                     .await
                                 {
-                                    None => break,
+                                    None => return Err(AwsChunkedStreamError::Incomplete),
                                     Some(Err(e)) => return Err(AwsChunkedStreamError::Io(e)),
                                     Some(Ok(remaining_bytes)) => prev_bytes = remaining_bytes,
                                 };
@@ -177,6 +177,8 @@ impl AwsChunkedStream {
                                 }
                             };
 
+                            let is_last = meta.size == 0;
+
                             match check_signature(&ctx, meta.signature, &data) {
                                 None => return Err(AwsChunkedStreamError::SignatureMismatch),
                                 Some(signature) => ctx.prev_signature = signature,
@@ -185,6 +187,11 @@ impl AwsChunkedStream {
                             for bytes in data {
                                 y.yield_ok(bytes).await;
                             }
+
+                            // the payload ends with a signed empty chunk
+                            if is_last {
+                                break;
+                            }
                         }
 
                         Ok(())
-- 
2.43.0


From da55edf46bf3ba21a10301fe069482a8c75353b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 05/27] fix: keep object keys inside the directory of their
 bucket

---
 src/storages/fs.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index a9fd52c..f108e5c 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -27,7 +27,7 @@ use std::collections::{HashMap, VecDeque};
 use std::convert::TryInto;
 use std::env;
 use std::io::{self, SeekFrom};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use futures::io::{AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufWriter};
 use futures::stream::{Stream, StreamExt, TryStreamExt};
@@ -59,6 +59,22 @@ impl FileSystem {
     fn get_object_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
         let dir = Path::new(&bucket);
         let file_path = Path::new(&key);
+
+        // a key must name something below the directory of its bucket
+        let mut is_below = false;
+        for component in file_path.components() {
+            match component {
+                Component::Normal(_) => is_below = true,
+                Component::CurDir => {}
+                Component::ParentDir | Component::RootDir | Component::Prefix(_) => {
+                    return Err(io::Error::new(io::ErrorKind::InvalidInput, "Invalid key"));
+                }
+            }
+        }
+        if !is_below {
+            return Err(io::Error::new(io::ErrorKind::InvalidInput, "Invalid key"));
+        }
+
         let ans = dir
             .join(&file_path)
             .absolutize_virtually(&self.root)?
-- 
2.43.0


From ebe8d9f377da7fa9556fb4507b349efa4ae55836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 06/27] fix: reject upload ids that were not issued by the
 server

---
 src/storages/fs.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index f108e5c..22966ab 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -103,6 +103,20 @@ impl FileSystem {
         Ok(ans)
     }
 
+    /// resolve the path of an uploaded part under the virtual root (custom format)
+    fn get_part_path(&self, upload_id: &str, part_number: i64) -> io::Result<PathBuf> {
+        if Uuid::parse_str(upload_id).is_err() {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "Invalid upload id",
+            ));
+        }
+        let file_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
+        let file_path = Path::new(&file_path_str);
+        let ans = file_path.absolutize_virtually(&self.root)?.into();
+        Ok(ans)
+    }
+
     /// load metadata from fs
     async fn load_metadata(
         &self,
@@ -762,8 +776,7 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody, "You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
-        let file_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
-        let file_path = trace_try!(Path::new(&file_path_str).absolutize_virtually(&self.root));
+        let file_path = trace_try!(self.get_part_path(&upload_id, part_number));
 
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
@@ -829,8 +842,7 @@ impl S3Storage for FileSystem {
                     "InvalidPartOrder"
                 )));
             }
-            let part_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
-            let part_path = trace_try!(Path::new(&part_path_str).absolutize_virtually(&self.root));
+            let part_path = trace_try!(self.get_part_path(&upload_id, part_number));
 
             let mut reader = trace_try!(File::open(&part_path).await);
             let (ret, duration) =
-- 
2.43.0


From 59e6b29435cdf16eb77d54fb252f9a42836ab2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 07/27] fix: wait for the whole first boundary line of a
 multipart/form-data body

---
 src/streams/multipart.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 8f1bed3..d97d2c5 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -131,6 +131,12 @@ where
 
     let mut lines = CrlfLines { slice: buf };
 
+    // the first boundary line may be incomplete
+    let first_line = buf.strip_prefix(b"\r\n").unwrap_or(buf);
+    if pat.starts_with(first_line) || b"\r\n".starts_with(buf) {
+        return Err((body, pat));
+    }
+
     // first line
     match lines.next_line() {
         None => return Err((body, pat)),
-- 
2.43.0


From f1bb4f2f01a1ef712b12ea55a64e7f7cc1c28254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 08/27] fix: keep the stored object when the body of PutObject
 fails

---
 src/storages/fs.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 22966ab..4377a9c 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -117,6 +117,14 @@ impl FileSystem {
         Ok(ans)
     }
 
+    /// resolve a path for a file which is not complete yet (custom format)
+    fn get_tmp_path(&self) -> io::Result<PathBuf> {
+        let file_path_str = format!(".tmp-{}", Uuid::new_v4());
+        let file_path = Path::new(&file_path_str);
+        let ans = file_path.absolutize_virtually(&self.root)?.into();
+        Ok(ans)
+    }
+
     /// load metadata from fs
     async fn load_metadata(
         &self,
@@ -716,11 +724,18 @@ impl S3Storage for FileSystem {
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let file = trace_try!(File::create(&object_path).await);
+        // the object is replaced only if the whole body is received
+        let tmp_path = trace_try!(self.get_tmp_path());
+        let file = trace_try!(File::create(&tmp_path).await);
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
+        drop(writer);
+        if ret.is_err() {
+            trace_try!(async_fs::remove_file(&tmp_path).await);
+        }
         let size = trace_try!(ret);
+        trace_try!(async_fs::rename(&tmp_path, &object_path).await);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
 
         debug!(
-- 
2.43.0


From 84cb91e6c203c229064015f0544eef8e60b5863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 09/27] fix: keep the content of an object which is copied to
 itself

---
 src/storages/fs.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 4377a9c..8d0e13e 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -263,7 +263,14 @@ impl S3Storage for FileSystem {
         let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
-        let _ = trace_try!(async_fs::copy(&src_path, &dst_path).await);
+        if let Some(dir_path) = dst_path.parent() {
+            trace_try!(async_fs::create_dir_all(&dir_path).await);
+        }
+
+        // the destination may be the source itself
+        let tmp_path = trace_try!(self.get_tmp_path());
+        let _ = trace_try!(async_fs::copy(&src_path, &tmp_path).await);
+        trace_try!(async_fs::rename(&tmp_path, &dst_path).await);
 
         debug!(
             from = %src_path.display(),
@@ -271,10 +278,11 @@ impl S3Storage for FileSystem {
             "CopyObject: copy file",
         );
 
-        let src_metadata_path = trace_try!(self.get_metadata_path(bucket, key));
-        if src_metadata_path.exists() {
-            let dst_metadata_path = trace_try!(self.get_metadata_path(&input.bucket, &input.key));
-            let _ = trace_try!(async_fs::copy(src_metadata_path, dst_metadata_path).await);
+        if let Some(ref metadata) = trace_try!(self.load_metadata(bucket, key).await) {
+            trace_try!(
+                self.save_metadata(&input.bucket, &input.key, metadata)
+                    .await
+            );
         }
 
         let md5_sum = trace_try!(self.get_md5_sum(bucket, key).await);
-- 
2.43.0


From 3f83529f70ea1f1082a5546993f43ffd1e355063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 10/27] fix: keep the stored object when
 CompleteMultipartUpload fails

---
 src/storages/fs.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 8d0e13e..e41b1bc 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -850,9 +850,8 @@ impl S3Storage for FileSystem {
         };
 
         let object_path = trace_try!(self.get_object_path(&bucket, &key));
-        let file = trace_try!(File::create(&object_path).await);
-        let mut writer = BufWriter::new(file);
 
+        let mut part_paths: Vec<PathBuf> = Vec::new();
         let mut cnt: i64 = 0;
         for part in multipart_upload.parts.into_iter().flatten() {
             let part_number = trace_try!(part
@@ -866,8 +865,24 @@ impl S3Storage for FileSystem {
                 )));
             }
             let part_path = trace_try!(self.get_part_path(&upload_id, part_number));
+            if !part_path.exists() {
+                let err = code_error!(InvalidPart, "One or more parts could not be found.");
+                return Err(err.into());
+            }
+            part_paths.push(part_path);
+        }
+
+        if let Some(dir_path) = object_path.parent() {
+            trace_try!(async_fs::create_dir_all(&dir_path).await);
+        }
 
-            let mut reader = trace_try!(File::open(&part_path).await);
+        // the object is replaced only if all parts are copied
+        let tmp_path = trace_try!(self.get_tmp_path());
+        let file = trace_try!(File::create(&tmp_path).await);
+        let mut writer = BufWriter::new(file);
+
+        for part_path in &part_paths {
+            let mut reader = trace_try!(File::open(part_path).await);
             let (ret, duration) =
                 time::count_duration(futures::io::copy(&mut reader, &mut writer)).await;
             let size = trace_try!(ret);
@@ -879,9 +894,13 @@ impl S3Storage for FileSystem {
                 ?duration,
                 "CompleteMultipartUpload: write file",
             );
-            trace_try!(async_fs::remove_file(&part_path).await);
         }
         drop(writer);
+        trace_try!(async_fs::rename(&tmp_path, &object_path).await);
+
+        for part_path in &part_paths {
+            trace_try!(async_fs::remove_file(part_path).await);
+        }
 
         let file_size = trace_try!(async_fs::metadata(&object_path).await).len();
 
-- 
2.43.0


From 461bba8ac2098409d6aefa621d43e72e97b24823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 11/27] fix: drop the metadata of an object which is replaced
 or deleted

---
 src/storages/fs.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index e41b1bc..bd9662a 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -155,6 +155,15 @@ impl FileSystem {
         async_fs::write(&path, &content).await
     }
 
+    /// delete metadata
+    async fn delete_metadata(&self, bucket: &str, key: &str) -> io::Result<()> {
+        let path = self.get_metadata_path(bucket, key)?;
+        if path.exists() {
+            async_fs::remove_file(&path).await?;
+        }
+        Ok(())
+    }
+
     /// get md5 sum
     async fn get_md5_sum(&self, bucket: &str, key: &str) -> io::Result<String> {
         let object_path = self.get_object_path(bucket, key)?;
@@ -283,6 +292,8 @@ impl S3Storage for FileSystem {
                 self.save_metadata(&input.bucket, &input.key, metadata)
                     .await
             );
+        } else {
+            trace_try!(self.delete_metadata(&input.bucket, &input.key).await);
         }
 
         let md5_sum = trace_try!(self.get_md5_sum(bucket, key).await);
@@ -323,6 +334,7 @@ impl S3Storage for FileSystem {
             }
         } else {
             trace_try!(async_fs::remove_file(path).await);
+            trace_try!(self.delete_metadata(&input.bucket, &input.key).await);
         }
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
         Ok(output)
@@ -344,6 +356,7 @@ impl S3Storage for FileSystem {
         let mut deleted: Vec<DeletedObject> = Vec::new();
         for (path, key) in objects {
             trace_try!(async_fs::remove_file(path).await);
+            trace_try!(self.delete_metadata(&input.bucket, &key).await);
             deleted.push(DeletedObject {
                 key: Some(key),
                 ..DeletedObject::default()
@@ -756,6 +769,8 @@ impl S3Storage for FileSystem {
 
         if let Some(ref metadata) = metadata {
             trace_try!(self.save_metadata(&bucket, &key, metadata).await);
+        } else {
+            trace_try!(self.delete_metadata(&bucket, &key).await);
         }
 
         let output = PutObjectOutput {
@@ -901,6 +916,7 @@ impl S3Storage for FileSystem {
         for part_path in &part_paths {
             trace_try!(async_fs::remove_file(part_path).await);
         }
+        trace_try!(self.delete_metadata(&bucket, &key).await);
 
         let file_size = trace_try!(async_fs::metadata(&object_path).await).len();
 
-- 
2.43.0


From eb49a84ff9ac2600387dcffd6a81ab85d19bc037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 12/27] fix: report NoSuchBucket instead of creating the bucket
 or failing

---
 src/storages/fs.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index bd9662a..6e0ec53 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -269,6 +269,11 @@ impl S3Storage for FileSystem {
         let src_path = trace_try!(self.get_object_path(bucket, key));
         let dst_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
 
+        if !trace_try!(self.get_bucket_path(&input.bucket)).exists() {
+            let err = code_error!(NoSuchBucket, "The specified bucket does not exist.");
+            return Err(err.into());
+        }
+
         let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
@@ -316,6 +321,12 @@ impl S3Storage for FileSystem {
         input: DeleteBucketRequest,
     ) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
+
+        if !path.exists() {
+            let err = code_error!(NoSuchBucket, "The specified bucket does not exist.");
+            return Err(err.into());
+        }
+
         trace_try!(async_fs::remove_dir_all(path).await);
         Ok(DeleteBucketOutput)
     }
@@ -567,6 +578,11 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<ListObjectsOutput, ListObjectsError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
+        if !path.exists() {
+            let err = code_error!(NoSuchBucket, "The specified bucket does not exist.");
+            return Err(err.into());
+        }
+
         let mut objects = Vec::new();
         let mut dir_queue = VecDeque::new();
         dir_queue.push_back(path.clone());
@@ -633,6 +649,11 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<ListObjectsV2Output, ListObjectsV2Error> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
+        if !path.exists() {
+            let err = code_error!(NoSuchBucket, "The specified bucket does not exist.");
+            return Err(err.into());
+        }
+
         let mut objects = Vec::new();
         let mut dir_queue = VecDeque::new();
         dir_queue.push_back(path.clone());
@@ -723,6 +744,11 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody,"You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
+        if !trace_try!(self.get_bucket_path(&bucket)).exists() {
+            let err = code_error!(NoSuchBucket, "The specified bucket does not exist.");
+            return Err(err.into());
+        }
+
         if key.ends_with('/') {
             if content_length == Some(0) {
                 let object_path = trace_try!(self.get_object_path(&bucket, &key));
@@ -864,6 +890,11 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         };
 
+        if !trace_try!(self.get_bucket_path(&bucket)).exists() {
+            let err = code_error!(NoSuchBucket, "The specified bucket does not exist.");
+            return Err(err.into());
+        }
+
         let object_path = trace_try!(self.get_object_path(&bucket, &key));
 
         let mut part_paths: Vec<PathBuf> = Vec::new();
-- 
2.43.0


From 045cf6998445f4bc508f7f22e9888748091783fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 13/27] fix: succeed in deleting an object which does not exist

---
 src/storages/fs.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 6e0ec53..3a3b263 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -338,13 +338,17 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
         let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
         if input.key.ends_with('/') {
-            let mut dir = trace_try!(async_fs::read_dir(&path).await);
-            let is_empty = dir.next().await.is_none();
-            if is_empty {
-                trace_try!(async_fs::remove_dir(&path).await);
+            if path.exists() {
+                let mut dir = trace_try!(async_fs::read_dir(&path).await);
+                let is_empty = dir.next().await.is_none();
+                if is_empty {
+                    trace_try!(async_fs::remove_dir(&path).await);
+                }
             }
         } else {
-            trace_try!(async_fs::remove_file(path).await);
+            if path.exists() {
+                trace_try!(async_fs::remove_file(path).await);
+            }
             trace_try!(self.delete_metadata(&input.bucket, &input.key).await);
         }
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
@@ -366,7 +370,10 @@ impl S3Storage for FileSystem {
 
         let mut deleted: Vec<DeletedObject> = Vec::new();
         for (path, key) in objects {
-            trace_try!(async_fs::remove_file(path).await);
+            // the same key may be requested more than once
+            if path.exists() {
+                trace_try!(async_fs::remove_file(path).await);
+            }
             trace_try!(self.delete_metadata(&input.bucket, &key).await);
             deleted.push(DeletedObject {
                 key: Some(key),
-- 
2.43.0


From c67d22349b347c0193ce533c6ee1b12f248e1851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 14/27] fix: do not handle a request for a sub-resource as a
 request for its parent

---
 src/ops.rs     | 56 +++++++++++++++++++++++++++++++++++++++++++++++++-
 src/service.rs |  9 +++++++-
 2 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/src/ops.rs b/src/ops.rs
index db19c3d..087bbe6 100644
--- a/src/ops.rs
+++ b/src/ops.rs
@@ -21,10 +21,11 @@ mod upload_part;
 
 use crate::data_structures::{OrderedHeaders, OrderedQs};
 use crate::errors::S3Result;
+use crate::headers::X_AMZ_COPY_SOURCE;
 use crate::path::S3Path;
 use crate::storage::S3Storage;
 use crate::streams::multipart::Multipart;
-use crate::{async_trait, Body, BoxStdError, Mime, Request, Response};
+use crate::{async_trait, Body, BoxStdError, Method, Mime, Request, Response};
 
 use std::fmt::Debug;
 use std::mem;
@@ -136,6 +137,59 @@ impl<'a> ReqContext<'a> {
     }
 }
 
+/// sub-resources which are not implemented
+///
+/// A request for one of them must not be handled as a request for the bucket or the object itself.
+const UNSUPPORTED_SUB_RESOURCES: &[&str] = &[
+    "accelerate",
+    "acl",
+    "analytics",
+    "attributes",
+    "cors",
+    "encryption",
+    "intelligent-tiering",
+    "inventory",
+    "legal-hold",
+    "lifecycle",
+    "logging",
+    "metrics",
+    "notification",
+    "object-lock",
+    "ownershipControls",
+    "policy",
+    "policyStatus",
+    "publicAccessBlock",
+    "replication",
+    "requestPayment",
+    "restore",
+    "retention",
+    "select",
+    "tagging",
+    "torrent",
+    "versionId",
+    "versioning",
+    "versions",
+    "website",
+];
+
+/// determine if the request is for a sub-resource which is not implemented
+pub fn is_unsupported_sub_resource(ctx: &ReqContext<'_>) -> bool {
+    let qs = bool_try_some!(ctx.query_strings.as_ref());
+    if UNSUPPORTED_SUB_RESOURCES
+        .iter()
+        .any(|name| qs.get(name).is_some())
+    {
+        return true;
+    }
+
+    // multipart uploads: create (POST), upload part (PUT), complete (POST)
+    let is_post = ctx.req.method() == Method::POST;
+    let is_put = ctx.req.method() == Method::PUT;
+    let is_copy = ctx.headers.get(X_AMZ_COPY_SOURCE).is_some();
+    (qs.get("uploads").is_some() && !is_post)
+        || (qs.get("uploadId").is_some() && !is_post && (!is_put || is_copy))
+}
+
 /// wrap any error as an internal error
 fn wrap_internal_error(
     f: impl FnOnce(&mut Response) -> Result<(), BoxStdError>,
diff --git a/src/service.rs b/src/service.rs
index 30d5ec0..9f0c750 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -5,7 +5,7 @@ use crate::data_structures::{OrderedHeaders, OrderedQs};
 use crate::errors::{S3AuthError, S3ErrorCode, S3Result};
 use crate::headers::{AmzContentSha256, AmzDate, AuthorizationV4, CredentialV4};
 use crate::headers::{AUTHORIZATION, CONTENT_TYPE, X_AMZ_CONTENT_SHA256, X_AMZ_DATE};
-use crate::ops::{ReqContext, S3Handler};
+use crate::ops::{self, ReqContext, S3Handler};
 use crate::output::S3Output;
 use crate::path::{S3Path, S3PathErrorKind};
 use crate::signature_v4;
@@ -169,6 +169,13 @@ impl S3Service {
             ));
         }
 
+        if ops::is_unsupported_sub_resource(&ctx) {
+            return Err(code_error!(
+                NotImplemented,
+                "A header or query you provided implies functionality that is not implemented."
+            ));
+        }
+
         for handler in &self.handlers {
             if handler.is_match(&ctx) {
                 return handler.handle(&mut ctx, &*self.storage).await;
-- 
2.43.0


From 4934699461a15d8ce718c8b9bde1c3c32274ff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 15/27] fix: reject presigned urls which have expired

---
 src/headers/amz_date.rs |  9 +++++++++
 src/service.rs          | 11 +++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/headers/amz_date.rs b/src/headers/amz_date.rs
index 71069ec..6d9a875 100644
--- a/src/headers/amz_date.rs
+++ b/src/headers/amz_date.rs
@@ -89,6 +89,15 @@ impl AmzDate {
         }
     }
 
+    /// Converts to a UTC date time
+    ///
+    /// Returns `None` if the date does not exist
+    pub(crate) fn to_naive_date_time(self) -> Option<chrono::NaiveDateTime> {
+        let date =
+            chrono::NaiveDate::from_ymd_opt(self.year.try_into().ok()?, self.month, self.day)?;
+        date.and_hms_opt(self.hour, self.minute, self.second)
+    }
+
     /// `YYYYMMDD'T'HHMMSS'Z'`
     #[must_use]
     pub fn to_iso8601(&self) -> String {
diff --git a/src/service.rs b/src/service.rs
index 9f0c750..78c6abe 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -445,6 +445,17 @@ async fn check_presigned_url(
         return Err(signature_mismatch!());
     }
 
+    let is_alive = presigned_url
+        .amz_date
+        .to_naive_date_time()
+        .map(|t| chrono::Utc::now().naive_utc().signed_duration_since(t))
+        .map_or(false, |age| {
+            age.num_seconds() <= i64::from(presigned_url.expires)
+        });
+    if !is_alive {
+        return Err(code_error!(AccessDenied, "Request has expired"));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 8c08bd6858bfc2edb20e2e236f9f21e27915b698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 16/27] fix: sign the decoded path so that a percent-encoded
 path is not encoded twice

---
 src/service.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 78c6abe..ae8d5a4 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -422,13 +422,15 @@ async fn check_presigned_url(
         fetch_secret_key(auth_provider, presigned_url.credential.access_key_id).await?;
 
     let signature = {
+        let uri_path = decode_uri_path(ctx.req)?;
+
         let headers = ctx
             .headers
             .map_signed_headers(&presigned_url.signed_headers);
 
         let canonical_request = signature_v4::create_presigned_canonical_request(
             ctx.req.method(),
-            ctx.req.uri().path(),
+            &uri_path,
             qs.as_ref(),
             &headers,
         );
@@ -492,7 +494,7 @@ async fn check_header_auth(
 
     let signature = {
         let method = ctx.req.method();
-        let uri_path = ctx.req.uri().path();
+        let uri_path = decode_uri_path(ctx.req)?;
         let query_strings: &[(String, String)] =
             ctx.query_strings.as_ref().map_or(&[], AsRef::as_ref);
 
@@ -504,7 +506,7 @@ async fn check_header_auth(
         let canonical_request = if is_stream {
             signature_v4::create_canonical_request(
                 method,
-                uri_path,
+                &uri_path,
                 query_strings,
                 &headers,
                 signature_v4::Payload::MultipleChunks,
@@ -525,7 +527,7 @@ async fn check_header_auth(
 
             let ans = signature_v4::create_canonical_request(
                 method,
-                uri_path,
+                &uri_path,
                 query_strings,
                 &headers,
                 payload,
-- 
2.43.0


From 819b39166826bafaa437ac9624d7ef1e3ceb6b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 17/27] fix: return the whole object when a suffix range is
 longer than it

---
 src/storages/fs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 3a3b263..a038390 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -454,8 +454,9 @@ impl S3Storage for FileSystem {
                         .wrapping_sub(first)
                 }
                 Some(Range::Suffix { last }) => {
+                    // a suffix longer than the object is the whole object
+                    let last = last.min(file_len);
                     let offset = Some(last)
-                        .filter(|&x| x <= file_len)
                         .and_then(|x| i64::try_from(x).ok())
                         .and_then(i64::checked_neg);
 
-- 
2.43.0


From e4218dbc891401b21914964ad5884dd82b67cb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 18/27] fix: keep the uploaded part when the body of UploadPart
 fails

---
 src/storages/fs.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index a038390..2b33f98 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -853,11 +853,18 @@ impl S3Storage for FileSystem {
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let file = trace_try!(File::create(&file_path).await);
+        // the part is replaced only if the whole body is received
+        let tmp_path = trace_try!(self.get_tmp_path());
+        let file = trace_try!(File::create(&tmp_path).await);
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
+        drop(writer);
+        if ret.is_err() {
+            trace_try!(async_fs::remove_file(&tmp_path).await);
+        }
         let size = trace_try!(ret);
+        trace_try!(async_fs::rename(&tmp_path, &file_path).await);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
 
         debug!(
-- 
2.43.0


From fd6b3dea6067ebc5187efce8939173ea62d5bc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 19/27] fix: accept only digits in the date of a credential

---
 src/headers/authorization_v4.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/headers/authorization_v4.rs b/src/headers/authorization_v4.rs
index 413085b..c2782cb 100644
--- a/src/headers/authorization_v4.rs
+++ b/src/headers/authorization_v4.rs
@@ -96,6 +96,9 @@ impl<'a> CredentialV4<'a> {
         verify(
             all_consuming(tuple((take(4_usize), take(2_usize), take(2_usize)))),
             |&(y, m, d): &(&str, &str, &str)| {
+                if !input.bytes().all(|b| b.is_ascii_digit()) {
+                    return false;
+                }
                 /// helper macro
                 macro_rules! parse_num {
                     ($x:expr) => {{
-- 
2.43.0


From 963901e7019bb3ea2ab0ec0b17505e9197de18ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 20/27] fix: reject a POST form whose credential has trailing
 data

---
 src/service.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index ae8d5a4..02a6d66 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -362,8 +362,10 @@ async fn check_post_signature(
         }
 
         // check x_amz_credential
-        let (_, credential) = CredentialV4::parse_by_nom(x_amz_credential)
-            .map_err(|_err| invalid_request!("Invalid field: x-amz-credential"))?;
+        let credential = match CredentialV4::parse_by_nom(x_amz_credential) {
+            Ok(("", c)) => c,
+            Ok(_) | Err(_) => return Err(invalid_request!("Invalid field: x-amz-credential")),
+        };
 
         // check x_amz_date
         let amz_date = AmzDate::from_header_str(x_amz_date)
-- 
2.43.0


From 1da7b9bf82f7b268d6a41c5e76ab1153438439e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 21/27] fix: decode percent-encoded copy sources

The copy source header is URL-encoded, so copies of objects whose keys need
encoding looked for a file with the encoded name.
---
 src/storages/fs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 2b33f98..296a9f8 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -256,7 +256,10 @@ impl S3Storage for FileSystem {
         &self,
         input: CopyObjectRequest,
     ) -> S3StorageResult<CopyObjectOutput, CopyObjectError> {
-        let copy_source = AmzCopySource::from_header_str(&input.copy_source)
+        // the copy source is percent-encoded
+        let copy_source = urlencoding::decode(&input.copy_source)
+            .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
+        let copy_source = AmzCopySource::from_header_str(&copy_source)
             .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
 
         let (bucket, key) = match copy_source {
-- 
2.43.0


From 0f27148d75b6365ac5dbdaf616dee1d043fe1134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 22/27] fix: accept a form whose file part has no content type

The content type of a part is optional, but the parser waited for more data
until the body ended.
---
 src/streams/multipart.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index d97d2c5..9b220e3 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -203,7 +203,7 @@ where
             }
             Some(filename) => {
                 let content_type = match content_type_bytes.map(std::str::from_utf8) {
-                    None => return Err((body, pat)),
+                    None => "text/plain", // the default of RFC 7578
                     Some(Err(_)) => return Ok(Err(generate_format_error())),
                     Some(Ok(s)) => s,
                 };
-- 
2.43.0


From 6e8cea266b780173d552626176c38a10a47905d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 23/27] fix: refuse POST forms whose policy has expired

The expiration of the signed policy document was never evaluated.
---
 src/service.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index 02a6d66..e54b42e 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -387,6 +387,8 @@ async fn check_post_signature(
         if signature != x_amz_signature {
             return Err(signature_mismatch!());
         }
+
+        check_post_policy_expiration(policy)?;
     }
 
     // store ctx value
@@ -395,6 +397,24 @@ async fn check_post_signature(
     Ok(())
 }
 
+/// check the expiration of a post policy (base64-encoded json)
+fn check_post_policy_expiration(policy: &str) -> S3Result<()> {
+    let expiration = base64_simd::STANDARD
+        .decode_to_vec(policy)
+        .ok()
+        .and_then(|json| serde_json::from_slice::<serde_json::Value>(&json).ok())
+        .and_then(|value| {
+            let expiration = value.get("expiration")?.as_str()?;
+            chrono::DateTime::parse_from_rfc3339(expiration).ok()
+        })
+        .ok_or_else(|| code_error!(InvalidPolicyDocument, "Invalid policy document"))?;
+
+    if chrono::Utc::now() > expiration {
+        return Err(code_error!(AccessDenied, "Invalid according to Policy: Policy expired."));
+    }
+    Ok(())
+}
+
 /// check presigned url (v4)
 async fn check_presigned_url(
     ctx: &mut ReqContext<'_>,
-- 
2.43.0


From 039cfa0c08f060e9539d821cc3afac50619362e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 24/27] fix: a copy from a missing object is a NoSuchKey error

---
 src/storages/fs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 296a9f8..8aa80d7 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -277,6 +277,11 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         }
 
+        if !src_path.exists() {
+            let err = code_error!(NoSuchKey, "The specified key does not exist.");
+            return Err(err.into());
+        }
+
         let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
-- 
2.43.0


From d6ea0c07226772bc2a8157f9e450ec5e63120857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 25/27] fix: user metadata reaches CopyObject and
 CreateMultipartUpload

---
 src/ops.rs                         | 19 +++++++++++++++++++
 src/ops/copy_object.rs             |  4 +++-
 src/ops/create_multipart_upload.rs |  4 +++-
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/ops.rs b/src/ops.rs
index 087bbe6..01e3901 100644
--- a/src/ops.rs
+++ b/src/ops.rs
@@ -27,6 +27,7 @@ use crate::storage::S3Storage;
 use crate::streams::multipart::Multipart;
 use crate::{async_trait, Body, BoxStdError, Method, Mime, Request, Response};
 
+use std::collections::HashMap;
 use std::fmt::Debug;
 use std::mem;
 
@@ -190,6 +191,24 @@ pub fn is_unsupported_sub_resource(ctx: &ReqContext<'_>) -> bool {
         || (qs.get("uploadId").is_some() && !is_post && (!is_put || is_copy))
 }
 
+/// user metadata in the request headers
+fn extract_metadata(headers: &OrderedHeaders<'_>) -> Option<HashMap<String, String>> {
+    let mut metadata: HashMap<String, String> = HashMap::new();
+    for &(name, value) in headers.as_ref() {
+        let meta_prefix = "x-amz-meta-";
+        if name.starts_with(meta_prefix) {
+            let (_, meta_key) = name.split_at(meta_prefix.len());
+            if !meta_key.is_empty() {
+                let _prev = metadata.insert(meta_key.to_owned(), value.to_owned());
+            }
+        }
+    }
+    if metadata.is_empty() {
+        return None;
+    }
+    Some(metadata)
+}
+
 /// wrap any error as an internal error
 fn wrap_internal_error(
     f: impl FnOnce(&mut Response) -> Result<(), BoxStdError>,
diff --git a/src/ops/copy_object.rs b/src/ops/copy_object.rs
index 01d36c4..672d1dc 100644
--- a/src/ops/copy_object.rs
+++ b/src/ops/copy_object.rs
@@ -1,6 +1,6 @@
 //! [`CopyObject`](https://docs.aws.amazon.com/AmazonS3/latest/API/API_CopyObject.html)
 
-use super::{wrap_internal_error, ReqContext, S3Handler};
+use super::{extract_metadata, wrap_internal_error, ReqContext, S3Handler};
 
 use crate::dto::{CopyObjectError, CopyObjectOutput, CopyObjectRequest};
 use crate::errors::{S3Error, S3ErrorCode, S3Result};
@@ -63,6 +63,8 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CopyObjectRequest> {
         ..CopyObjectRequest::default()
     };
 
+    input.metadata = extract_metadata(&ctx.headers);
+
     let h = &ctx.headers;
     h.assign_str(X_AMZ_ACL, &mut input.acl);
     h.assign_str(CACHE_CONTROL, &mut input.cache_control);
diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index 9ff5fb7..2df5a18 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -1,6 +1,6 @@
 //! [`CreateMultipartUpload`](https://docs.aws.amazon.com/AmazonS3/latest/API/API_CreateMultipartUpload.html)
 
-use super::{wrap_internal_error, ReqContext, S3Handler};
+use super::{extract_metadata, wrap_internal_error, ReqContext, S3Handler};
 
 use crate::dto::{
     CreateMultipartUploadError, CreateMultipartUploadOutput, CreateMultipartUploadRequest,
@@ -105,6 +105,8 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CreateMultipartUploadRequest> {
         ..CreateMultipartUploadRequest::default()
     };
 
+    input.metadata = extract_metadata(&ctx.headers);
+
     let h = &ctx.headers;
     h.assign_str(X_AMZ_ACL, &mut input.acl);
     h.assign_str(CACHE_CONTROL, &mut input.cache_control);
-- 
2.43.0


From bd009cc07f1ff0e8b94ef157973f001e585a4925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 26/27] fix: deleting a key does not delete the object of the
 same name with or without a slash

---
 src/storages/fs.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 8aa80d7..d6e22bb 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -346,7 +346,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
         let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
         if input.key.ends_with('/') {
-            if path.exists() {
+            if path.is_dir() {
                 let mut dir = trace_try!(async_fs::read_dir(&path).await);
                 let is_empty = dir.next().await.is_none();
                 if is_empty {
@@ -354,7 +354,7 @@ impl S3Storage for FileSystem {
                 }
             }
         } else {
-            if path.exists() {
+            if path.is_file() {
                 trace_try!(async_fs::remove_file(path).await);
             }
             trace_try!(self.delete_metadata(&input.bucket, &input.key).await);
@@ -371,7 +371,9 @@ impl S3Storage for FileSystem {
         let mut objects: Vec<(PathBuf, String)> = Vec::new();
         for object in input.delete.objects {
             let path = trace_try!(self.get_object_path(&input.bucket, &object.key));
-            if path.exists() {
+            // `dir/` names a directory, `dir` a file
+            let is_dir_key = object.key.ends_with('/');
+            if (is_dir_key && path.is_dir()) || (!is_dir_key && path.is_file()) {
                 objects.push((path, object.key));
             }
         }
@@ -379,7 +381,15 @@ impl S3Storage for FileSystem {
         let mut deleted: Vec<DeletedObject> = Vec::new();
         for (path, key) in objects {
             // the same key may be requested more than once
-            if path.exists() {
+            if key.ends_with('/') {
+                if path.is_dir() {
+                    let mut dir = trace_try!(async_fs::read_dir(&path).await);
+                    let is_empty = dir.next().await.is_none();
+                    if is_empty {
+                        trace_try!(async_fs::remove_dir(&path).await);
+                    }
+                }
+            } else if path.is_file() {
                 trace_try!(async_fs::remove_file(path).await);
             }
             trace_try!(self.delete_metadata(&input.bucket, &key).await);
-- 
2.43.0


From cda358a2a1fc6a55c3a798de03d1a4af6af7cd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 27/27] fix: sort the signed headers of a presigned URL before
 they are searched

---
 src/signature_v4.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/signature_v4.rs b/src/signature_v4.rs
index df3f8c8..2f2da42 100644
--- a/src/signature_v4.rs
+++ b/src/signature_v4.rs
@@ -92,7 +92,9 @@ impl<'a> PresignedUrl<'a> {
         if !info.x_amz_signed_headers.is_ascii() {
             return Err(ParsePresignedUrlError { _priv: () });
         }
-        let signed_headers = info.x_amz_signed_headers.split(';').collect::<Vec<&str>>();
+        // the list is searched by name, in order
+        let mut signed_headers = info.x_amz_signed_headers.split(';').collect::<Vec<&str>>();
+        signed_headers.sort_unstable();
 
         if !crypto::is_sha256_checksum(info.x_amz_signature) {
             return Err(ParsePresignedUrlError { _priv: () });
-- 
2.43.0

