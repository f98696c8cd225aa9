SEEDS = {}
def seed(id, prop, needs, breaks, edits, demo, count=1):
    SEEDS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, count=count)

seed("c02-tilde-encoded", "C02", "a signed path or query value that contains '~'",
 "'~' is percent-encoded in the canonical request, so a correctly signed request whose path contains '~' is refused with SignatureDoesNotMatch",
 [("src/signature_v4.rs", "b'0'..=b'9' | b'_' | b'-' | b'~' | b'.' => buf.push(byte)", "b'0'..=b'9' | b'_' | b'-' | b'.' => buf.push(byte)")],
 r'''
 let s = with_auth(fs_service());
 expect(signed(&s, "PUT", "/bucket", &[], &[], b"", None).await.ok(), "create the bucket");
 expect(signed(&s, "PUT", "/bucket/plain.txt", &[], &[], b"x", None).await.ok(), "signed PUT of plain.txt");
 expect(signed(&s, "PUT", "/bucket/backup.txt~", &[], &[], b"x", None).await.ok(), "signed PUT of backup.txt~");
 ''')
seed("c02-query-sorted-before-encoding", "C02", "two query parameters whose order differs between their decoded and their encoded form, e.g. names 'a-' and 'a\u00e4'",
 "the canonical query string is not in the order AWS Signature V4 defines, so a correctly signed request is refused",
 [("src/signature_v4.rs", """                    (name, value)
                })
                .collect::<SmallVec<[(String, String); 16]>>()
                .also(|qs| qs.sort());
""", """                    (name, value)
                })
                .collect::<SmallVec<[(String, String); 16]>>();
""")],
 r'''
 let s = with_auth(fs_service());
 expect(signed(&s, "PUT", "/bucket", &[], &[], b"", None).await.ok(), "create the bucket");
 expect(signed(&s, "GET", "/bucket", &[("prefix", "a"), ("x-b", "1")], &[], b"", None).await.ok(), "plain parameters");
 expect(signed(&s, "GET", "/bucket", &[("a-", "1"), ("a\u{e4}", "2")], &[], b"", None).await.ok(), "parameters whose encoded order differs");
 ''')
seed("c02-accept-encoding-unsigned", "C02", "a request whose signed headers include Accept-Encoding",
 "the header is left out of the canonical request, so a correctly signed request is refused",
 [("src/signature_v4.rs", '["authorization", "user-agent"].contains(&header)', '["accept-encoding", "authorization", "user-agent"].contains(&header)')],
 r'''
 let s = with_auth(fs_service());
 expect(signed(&s, "PUT", "/bucket", &[], &[], b"", None).await.ok(), "create the bucket");
 expect(signed(&s, "PUT", "/bucket/k", &[], &[], b"0123456789", None).await.ok(), "put");
 let r = signed(&s, "GET", "/bucket/k", &[], &[("accept-encoding", "identity")], b"", None).await;
 expect(r.ok() && r.body == b"0123456789", "GET with a signed Accept-Encoding header");
 ''')
seed("c01-signature-parameter-case", "C01", "a presigned URL to which a parameter named like X-Amz-Signature in another case is appended",
 "the appended parameter is not part of the signature: the query string of a presigned URL can be changed after signing",
 [("src/signature_v4.rs", 'name == "X-Amz-Signature"', 'name.eq_ignore_ascii_case("X-Amz-Signature")')],
 r'''
 let s = with_auth(fs_service());
 expect(signed(&s, "PUT", "/bucket", &[], &[], b"", None).await.ok(), "create the bucket");
 let d = signer().date;
 let u = presign("GET", "/bucket", &[], &d, "600");
 expect(frames(&s, "GET", &u, &[("host", "localhost")], &[]).await.ok(), "presigned URL");
 let r = frames(&s, "GET", &format!("{}&x-amz-signature=evil", u), &[("host", "localhost")], &[]).await;
 expect(r.status == 403, "presigned URL with an appended parameter is refused");
 ''')
seed("c01-presigned-without-provider", "C01", "a server without authentication provider and a request that carries a presigned signature",
 "requests that carry a presigned signature are served although nothing can verify it",
 [("src/service.rs", 'if qs.get("X-Amz-Signature").is_some() {', 'if auth.is_some() && qs.get("X-Amz-Signature").is_some() {')],
 r'''
 let s = fs_service();
 expect(call(&s, "PUT", "/bucket", &[], b"").await.ok(), "create the bucket");
 let d = signer().date;
 let u = presign("GET", "/bucket", &[], &d, "600");
 let r = frames(&s, "GET", &u, &[("host", "localhost")], &[]).await;
 expect(r.status >= 400, "a presigned request is refused without a provider");
 ''')
seed("c03-chunk-signature-case", "C03", "a chunk whose signature was altered by changing the case of a hex digit",
 "a payload whose chunk signature was altered is accepted",
 [("src/streams/aws_chunked_stream.rs", "(chunk_signature.as_bytes() == expected_signature).then", "chunk_signature\n        .as_bytes()\n        .eq_ignore_ascii_case(expected_signature)\n        .then")],
 r'''
 let s = with_auth(fs_service());
 expect(signed(&s, "PUT", "/bucket", &[], &[], b"", None).await.ok(), "create the bucket");
 let join = |p: Vec<(String, Vec<u8>, Vec<u8>)>| p.into_iter().map(|(h, d, t)| [h.into_bytes(), d, t].concat()).collect::<Vec<_>>();
 expect(chunked(&s, "/bucket/k", &[&[7u8; 70000], b"tail"], join).await.ok(), "chunk-signed upload");
 let altered = |p: Vec<(String, Vec<u8>, Vec<u8>)>| p.into_iter().enumerate().map(|(i, (h, d, t))| {
     let h = if i == 1 { let (a, b) = h.split_once('=').unwrap(); format!("{}={}", a, b.to_uppercase()) } else { h };
     [h.into_bytes(), d, t].concat()
 }).collect::<Vec<_>>();
 expect(!chunked(&s, "/bucket/k2", &[&[7u8; 70000], b"tail"], altered).await.ok(), "an altered chunk signature is refused");
 ''')
seed("c03-chunk-terminator-unchecked", "C03", "a chunk whose data and terminator arrive in one frame and whose terminator is not CR LF",
 "a payload whose chunk framing was altered is accepted",
 [("src/streams/aws_chunked_stream.rs", 'if remaining_bytes.starts_with(b"\\r\\n") {', 'if remaining_bytes.len() >= 2 {')],
 r'''
 let s = with_auth(fs_service());
 expect(signed(&s, "PUT", "/bucket", &[], &[], b"", None).await.ok(), "create the bucket");
 let altered = |p: Vec<(String, Vec<u8>, Vec<u8>)>| p.into_iter().enumerate().map(|(i, (h, d, t))| [h.into_bytes(), d, if i == 0 { b"XY".to_vec() } else { t }].concat()).collect::<Vec<_>>();
 expect(!chunked(&s, "/bucket/k", &[&[7u8; 70000], b"tail"], altered).await.ok(), "an altered chunk terminator is refused");
 ''')
seed("c03-yield-before-check", "C03", "a storage that looks at the items of the stream and a chunk whose data was altered",
 "data of a chunk whose signature does not verify is handed to the storage before the error",
 [("src/streams/aws_chunked_stream.rs", """                            for bytes in data {
                                y.yield_ok(bytes).await;
                            }
""", ""), ("src/streams/aws_chunked_stream.rs", """                            match check_signature(&ctx, meta.signature, &data) {
                                None => return Err(AwsChunkedStreamError::SignatureMismatch),
                                Some(signature) => ctx.prev_signature = signature,
                            }
""", """                            let verified = check_signature(&ctx, meta.signature, &data);

                            for bytes in data {
                                y.yield_ok(bytes).await;
                            }

                            match verified {
                                None => return Err(AwsChunkedStreamError::SignatureMismatch),
                                Some(signature) => ctx.prev_signature = signature,
                            }
""")],
 r'''
 let rec = rec::Rec::default();
 let s = with_auth(s3_server::S3Service::new(rec.clone()));
 let altered = |p: Vec<(String, Vec<u8>, Vec<u8>)>| p.into_iter().enumerate().map(|(i, (h, d, t))| [h.into_bytes(), if i == 1 { b"EVIL".to_vec() } else { d }, t].concat()).collect::<Vec<_>>();
 let r = chunked(&s, "/bucket/k", &[b"good", b"tail"], altered).await;
 expect(!r.ok(), "an altered chunk is refused");
 let c = rec.take_calls();
 expect(c.iter().all(|c| c.body.as_deref().map_or(true, |b| b == b"good" || b.is_empty())), "no byte of the altered chunk reached the storage");
 ''')
seed("c04-field-names-case-sensitive", "C04", "a form whose field names are written in another case (Key instead of key)",
 "form fields are only found under their exact spelling",
 [("src/streams/multipart.rs", "n.eq_ignore_ascii_case(name).then", "(n.as_str() == name).then")],
 r"""
 let s = with_auth(fs_service());
 expect(signed(&s, "PUT", "/bucket", &[], &[], b"", None).await.ok(), "create the bucket");
 let f = post_fields("k");
 let fr: Vec<(String, String)> = f.iter().map(|(a, b)| (if a == "key" { "Key".into() } else if a.starts_with("x-amz") { a.replace("x-amz", "X-Amz") } else { a.clone() }, b.clone())).collect();
 let fr: Vec<(&str, &str)> = fr.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
 let (ct, body) = form(&fr, b"file content");
 let r = frames(&s, "POST", "/bucket", &[("content-type", &ct)], &[&body]).await;
 let g = signed(&s, "GET", "/bucket/k", &[], &[], b"", None).await;
 expect(r.ok() && g.body == b"file content", "form with field names in another case");
 """)
seed("c04-first-field-wins", "C04", "a form in which a field occurs twice",
 "the first occurrence of a repeated field is used instead of the last",
 [("src/streams/multipart.rs", "            .rev()\n", "")],
 r'''
 let s = with_auth(fs_service());
 expect(signed(&s, "PUT", "/bucket", &[], &[], b"", None).await.ok(), "create the bucket");
 let mut f = vec![("key".to_string(), "first".to_string())];
 f.extend(post_fields("second"));
 let fr: Vec<(&str, &str)> = f.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
 let (ct, body) = form(&fr, b"data");
 expect(frames(&s, "POST", "/bucket", &[("content-type", &ct)], &[&body]).await.ok(), "form with a repeated key field");
 expect(signed(&s, "GET", "/bucket/second", &[], &[], b"", None).await.body == b"data", "the last key field names the object");
 ''')
seed("c05-single-byte-range", "C05", "a range of exactly one byte (first = last)",
 "a range that selects one byte is refused",
 [("src/headers/range.rs", "if first > last {", "if first >= last {")],
 r'''
 let s = fs_service();
 expect(call(&s, "PUT", "/bucket", &[], b"").await.ok(), "create the bucket");
 expect(call(&s, "PUT", "/bucket/k", &[], b"0123456789").await.ok(), "put");
 expect(call(&s, "GET", "/bucket/k", &[("range", "bytes=3-5")], b"").await.body == b"345", "three bytes");
 expect(call(&s, "GET", "/bucket/k", &[("range", "bytes=5-5")], b"").await.body == b"5", "one byte");
 ''')
seed("c05-first-at-end", "C05", "a range whose first byte position equals the size of the object",
 "a range that starts just behind the object is answered with an empty success instead of InvalidRange",
 [("src/storages/fs.rs", "if first >= file_len {", "if first > file_len {")],
 r'''
 let s = fs_service();
 expect(call(&s, "PUT", "/bucket", &[], b"").await.ok(), "create the bucket");
 expect(call(&s, "PUT", "/bucket/k", &[], b"0123456789").await.ok(), "put");
 expect(call(&s, "GET", "/bucket/k", &[("range", "bytes=11-12")], b"").await.status == 416, "beyond the object");
 expect(call(&s, "GET", "/bucket/k", &[("range", "bytes=10-")], b"").await.status == 416, "just behind the object");
 ''')
seed("c06-copy-source-bucket-unchecked", "C06", "a CopyObject whose source is the absolute path of one of the server's internal files",
 "the source of a copy may lie outside every bucket",
 [("src/headers/amz_copy_source.rs", """                if !S3Path::check_bucket_name(bucket) {
                    return Err(ParseAmzCopySourceError::InvalidBucketName);
                }

""", "")],
 r'''
 let s = fs_service();
 expect(call(&s, "PUT", "/bucket", &[], b"").await.ok(), "create the bucket");
 expect(call(&s, "PUT", "/bucket/k", &[("x-amz-meta-a", "secret")], b"0123456789").await.ok(), "put");
 let internal = std::fs::read_dir(root()).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).find(|n| n.starts_with(".bucket-")).expect("metadata file");
 let r = call(&s, "PUT", "/bucket/leak", &[("x-amz-copy-source", &format!("{}/{}", root().display(), internal))], b"").await;
 let g = call(&s, "GET", "/bucket/leak", &[], b"").await;
 expect(!r.ok() && !g.ok(), "an internal file of the server cannot be copied into a bucket");
 ''')
seed("c07-metadata-key-case", "C07", "two objects of a bucket whose keys differ only in case, one of them with user metadata",
 "the metadata of one object is stored under the name of the other: they share user metadata",
 [("src/storages/fs.rs", "            encode(key),\n", "            encode(&key.to_lowercase()),\n")],
 r'''
 let s = fs_service();
 expect(call(&s, "PUT", "/bucket", &[], b"").await.ok(), "create the bucket");
 expect(call(&s, "PUT", "/bucket/Readme", &[("x-amz-meta-color", "red")], b"1").await.ok(), "put Readme");
 expect(call(&s, "PUT", "/bucket/readme", &[], b"2").await.ok(), "put readme");
 expect(call(&s, "GET", "/bucket/Readme", &[], b"").await.get("x-amz-meta-color").as_deref() == Some("red"), "metadata of Readme");
 expect(call(&s, "GET", "/bucket/readme", &[], b"").await.get("x-amz-meta-color").is_none(), "no metadata on readme");
 ''')
seed("c07-empty-metadata-key", "C07", "a metadata value that begins or ends with a space inside the header value as stored by a form upload, or any value with upper case letters",
 "user metadata values come back in lower case",
 [("src/utils/response.rs", "@", "@")], r'''''')
del SEEDS["c07-empty-metadata-key"]
seed("c08-v2-sorted-by-path", "C08", "a bucket with keys like 'a/b' and 'a-b' (a character below '/' next to a directory), listed with ListObjectsV2",
 "ListObjectsV2 is not in ascending key order",
 [("src/storages/fs.rs", """            lhs_key.cmp(rhs_key)
        });

        // TODO: handle other fields
        let output = ListObjectsV2Output {""", """            Path::new(lhs_key).cmp(Path::new(rhs_key))
        });

        // TODO: handle other fields
        let output = ListObjectsV2Output {""")],
 r'''
 let s = fs_service();
 expect(call(&s, "PUT", "/bucket", &[], b"").await.ok(), "create the bucket");
 for k in ["a/b", "a-b", "b", "a.c"] { expect(call(&s, "PUT", &format!("/bucket/{}", k), &[], b"1").await.ok(), "put"); }
 let t = call(&s, "GET", "/bucket?list-type=2", &[], b"").await.text();
 let keys: Vec<&str> = t.split("<Key>").skip(1).map(|x| x.split("</Key>").next().unwrap()).collect();
 expect(keys == ["a-b", "a.c", "a/b", "b"], "ascending order");
 ''')
seed("c08-prefix-by-component", "C08", "a prefix that ends inside a path segment",
 "ListObjects treats the prefix as whole path segments: matching keys are missing",
 [("src/storages/fs.rs", """                    if let Some(ref prefix) = input.prefix {
                        if !key.to_string_lossy().as_ref().starts_with(prefix) {
                            continue;
                        }
                    }

                    let metadata = trace_try!(entry.metadata().await);
                    let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));
                    let size = metadata.len();

                    objects.push(Object {
                        e_tag: None,
                        key: Some(key.to_string_lossy().into()),
                        last_modified: Some(last_modified),
                        owner: None,
                        size: Some(trace_try!(size.try_into())),
                        storage_class: None,
                    });
                }
            }
        }

        objects.sort_by(|lhs, rhs| {
            let lhs_key = lhs.key.as_deref().unwrap_or("");
            let rhs_key = rhs.key.as_deref().unwrap_or("");
            lhs_key.cmp(rhs_key)
        });

        // TODO: handle other fields
        let output = ListObjectsOutput {""", """                    if let Some(ref prefix) = input.prefix {
                        if !key.to_string_lossy().as_ref().starts_with(prefix.trim_start_matches('/')) {
                            continue;
                        }
                    }

                    let metadata = trace_try!(entry.metadata().await);
                    let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));
                    let size = metadata.len();

                    objects.push(Object {
                        e_tag: None,
                        key: Some(key.to_string_lossy().into()),
                        last_modified: Some(last_modified),
                        owner: None,
                        size: Some(trace_try!(size.try_into())),
                        storage_class: None,
                    });
                }
            }
        }

        objects.sort_by(|lhs, rhs| {
            let lhs_key = lhs.key.as_deref().unwrap_or("");
            let rhs_key = rhs.key.as_deref().unwrap_or("");
            lhs_key.cmp(rhs_key)
        });

        // TODO: handle other fields
        let output = ListObjectsOutput {""")],
 r'''
 let s = fs_service();
 expect(call(&s, "PUT", "/bucket", &[], b"").await.ok(), "create the bucket");
 for k in ["a/b", "ab", "b"] { expect(call(&s, "PUT", &format!("/bucket/{}", k), &[], b"1").await.ok(), "put"); }
 let t = call(&s, "GET", "/bucket?prefix=a", &[], b"").await.text();
 expect(t.matches("<Key>").count() == 2, "prefix a");
 let t = call(&s, "GET", "/bucket?prefix=/", &[], b"").await.text();
 expect(t.matches("<Key>").count() == 0, "no key starts with a slash");
 ''')
SEEDS["c08-prefix-leading-slash"] = SEEDS.pop("c08-prefix-by-component")
SEEDS["c08-prefix-leading-slash"].update(needs="a listing whose prefix begins with '/'", breaks="ListObjects ignores leading slashes of the prefix and returns objects whose key does not start with it")
seed("c09-delete-without-slash", "C09", "an object 'dir/' (a directory key) and a DELETE of the different key 'dir'",
 "deleting the key 'dir' removes the object 'dir/'",
 [("src/storages/fs.rs", "        if input.key.ends_with('/') {\n", "        if path.is_dir() {\n")],
 r"""
 let s = fs_service();
 expect(call(&s, "PUT", "/bucket", &[], b"").await.ok(), "create the bucket");
 expect(call(&s, "PUT", "/bucket/dir/", &[], b"").await.ok(), "put dir/");
 expect(call(&s, "HEAD", "/bucket/dir/", &[], b"").await.ok(), "dir/ exists");
 let _ = call(&s, "DELETE", "/bucket/dir", &[], b"").await;
 expect(call(&s, "HEAD", "/bucket/dir/", &[], b"").await.ok(), "dir/ still exists");
 """)
seed("c09-multi-delete-same-name", "C09", "a multi-object delete that names two keys with the same last segment in different folders",
 "the second of the two objects is neither deleted nor reported",
 [("src/storages/fs.rs", """                objects.push((path, object.key));
""", """                let is_new = objects.iter().all(|o| o.0.file_name() != path.file_name());
                if is_new {
                    objects.push((path, object.key));
                }
""")],
 r'''
 let s = fs_service();
 expect(call(&s, "PUT", "/bucket", &[], b"").await.ok(), "create the bucket");
 for k in ["x/c", "y/c"] { expect(call(&s, "PUT", &format!("/bucket/{}", k), &[], b"1").await.ok(), "put"); }
 let r = call(&s, "POST", "/bucket?delete", &[("content-md5", "x")], b"<Delete><Object><Key>x/c</Key></Object><Object><Key>y/c</Key></Object></Delete>").await;
 expect(r.ok(), "multi delete");
 expect(call(&s, "GET", "/bucket/x/c", &[], b"").await.status == 404 && call(&s, "GET", "/bucket/y/c", &[], b"").await.status == 404, "both existing objects are deleted");
 ''')
seed("c10-gap-in-part-list", "C10", "a CompleteMultipartUpload whose part list has a gap (1, 3)",
 "a part list that is not 1..n is accepted and the object lacks a part",
 [("src/storages/fs.rs", "if part_number != cnt {", "if part_number < cnt {")],
 r'''
 let s = fs_service();
 expect(call(&s, "PUT", "/bucket", &[], b"").await.ok(), "create the bucket");
 let t = call(&s, "POST", "/bucket/k?uploads", &[], b"").await.text();
 let id = t.split("<UploadId>").nth(1).unwrap().split('<').next().unwrap().to_string();
 for n in 1..4 { expect(call(&s, "PUT", &format!("/bucket/k?partNumber={}&uploadId={}", n, id), &[], format!("part{}", n).as_bytes()).await.ok(), "part"); }
 let x = |l: &[u32]| format!("<CompleteMultipartUpload>{}</CompleteMultipartUpload>", l.iter().map(|n| format!("<Part><PartNumber>{}</PartNumber><ETag>x</ETag></Part>", n)).collect::<String>());
 expect(!call(&s, "POST", &format!("/bucket/k?uploadId={}", id), &[], x(&[1, 3]).as_bytes()).await.ok(), "a list with a gap is refused");
 expect(call(&s, "POST", &format!("/bucket/k?uploadId={}", id), &[], x(&[1, 2, 3]).as_bytes()).await.ok(), "the full list is accepted");
 expect(call(&s, "GET", "/bucket/k", &[], b"").await.body == b"part1part2part3", "content");
 ''')
seed("c11-copy-source-query", "C11", "a copy whose source key contains a '?' (sent percent-encoded)",
 "the key of the source is cut at the '?': another object is copied",
 [("src/headers/amz_copy_source.rs", 'static_regex!("^(.+?)/(.+)$")', 'static_regex!("^(.+?)/([^?]+)")')],
 r'''
 let s = fs_service();
 expect(call(&s, "PUT", "/bucket", &[], b"").await.ok(), "create the bucket");
 expect(call(&s, "PUT", "/bucket/what", &[], b"other").await.ok(), "put what");
 expect(call(&s, "PUT", "/bucket/what%3Fnow", &[], b"right").await.ok(), "put what?now");
 let r = call(&s, "PUT", "/bucket/dst", &[("x-amz-copy-source", "bucket/what%3Fnow")], b"").await;
 expect(r.ok() && call(&s, "GET", "/bucket/dst", &[], b"").await.body == b"right", "the copy equals its source");
 ''')
seed("c12-list-type-any", "C12", "GET of a bucket with a list-type other than 2",
 "ListObjectsV2 is run for requests that do not ask for version 2 (list-type=1)",
 [("src/ops/list_objects_v2.rs", """        let list_type = bool_try_some!(qs.get("list-type"));
        list_type == "2"
""", """        qs.get("list-type").is_some()
""")],
 r'''
 let rec = rec::Rec::default();
 let s = s3_server::S3Service::new(rec.clone());
 let _ = call(&s, "GET", "/bucket?list-type=2", &[], b"").await;
 expect(rec.take_calls().iter().map(|c| c.op).collect::<Vec<_>>() == ["ListObjectsV2"], "list-type=2");
 let _ = call(&s, "GET", "/bucket?list-type=1", &[], b"").await;
 expect(rec.take_calls().iter().all(|c| c.op != "ListObjectsV2"), "list-type=1 is not version 2");
 ''')
seed("c12-upload-part-without-id", "C12", "PUT of an object with partNumber but without uploadId",
 "UploadPart matches although the request names no upload: the server panics",
 [("src/ops/upload_part.rs", 'qs.get("partNumber").is_some() && qs.get("uploadId").is_some()', 'qs.get("partNumber").is_some()'),
  ("src/ops/put_object.rs", "@@", "@@")],
 r'''''')
del SEEDS["c12-upload-part-without-id"]
seed("c13-bucket-name-64", "C13", "a bucket name of exactly 64 characters",
 "a bucket name of 64 characters is accepted",
 [("src/path.rs", "if !(3_usize..64).contains(&name.len()) {", "if !(3_usize..=64).contains(&name.len()) {")],
 r'''
 let s = fs_service();
 expect(call(&s, "PUT", &format!("/{}", "b".repeat(63)), &[], b"").await.ok(), "63 characters");
 expect(!call(&s, "PUT", &format!("/{}", "b".repeat(64)), &[], b"").await.ok(), "64 characters are refused");
 ''')
seed("c13-key-length-in-characters", "C13", "a key of at most 1024 characters whose UTF-8 form has more than 1024 bytes",
 "the length of a key is counted in characters instead of bytes",
 [("src/path.rs", "pub const fn check_key(key: &str) -> bool {\n        key.len() <= 1024\n", "pub fn check_key(key: &str) -> bool {\n        key.chars().count() <= 1024\n")],
 r'''
 let s = s3_server::S3Service::new(rec::Rec::default());
 expect(call(&s, "PUT", &format!("/bucket/{}", "k".repeat(1024)), &[], b"x").await.ok(), "1024 bytes");
 let r = call(&s, "PUT", &format!("/bucket/{}", "%C3%A4".repeat(600)), &[], b"x").await;
 expect(r.status == 400 && r.text().contains("KeyTooLongError"), "1200 bytes in 600 characters are too long");
 ''')
seed("c14-invalid-object-state-status", "C14", "a storage that reports InvalidObjectState",
 "the response to InvalidObjectState has status 400 instead of 403",
 [("src/errors.rs", "Self::InvalidObjectState => Some(StatusCode::FORBIDDEN),", "Self::InvalidObjectState => Some(StatusCode::BAD_REQUEST),")],
 r'''
 let rec = rec::Rec::default();
 let s = s3_server::S3Service::new(rec.clone());
 rec.answer::<s3_server::dto::GetObjectOutput, s3_server::dto::GetObjectError>("GetObject", Err(s3_server::errors::S3Error::new(s3_server::errors::S3ErrorCode::InvalidObjectState, "x").into()));
 let r = call(&s, "GET", "/bucket/k", &[], b"").await;
 expect(r.status == 403 && r.text().contains("<Code>InvalidObjectState</Code>"), "InvalidObjectState is a 403");
 ''')
seed("c15-query-sorted-case-insensitively", "C15", "a query string with parameter names in mixed case, so that the case-insensitive order differs from the byte order",
 "the binary search does not find parameters that are present",
 [("src/data_structures/ordered_qs.rs", """            .also(|v| v.sort())
            .apply""", """            .also(|v| v.sort_by_key(|x| (x.0.to_ascii_lowercase(), x.1.clone())))
            .apply""")],
 r'''
 let rec = rec::Rec::default();
 let s = s3_server::S3Service::new(rec.clone());
 let _ = call(&s, "GET", "/bucket?prefix=abc&Qa=1&Sb=2&Tc=3&Ud=4&Zz=5", &[], b"").await;
 let c = rec.take_calls();
 expect(c.len() == 1 && c[0].input.contains("prefix: Some(\"abc\")"), "the prefix parameter is found");
 let _ = call(&s, "GET", "/bucket?Z=1&marker=m&prefix=abc&A=1", &[], b"").await;
 let c = rec.take_calls();
 expect(c.len() == 1 && c[0].input.contains("prefix: Some(\"abc\")") && c[0].input.contains("marker: Some(\"m\")"), "prefix and marker are found");
 let _ = call(&s, "GET", "/bucket?Prefix=1&prefix=abc&PREFIX=2&list-type=2&LIST-TYPE=7", &[], b"").await;
 let c = rec.take_calls();
 expect(c.len() == 1 && c[0].op == "ListObjectsV2" && c[0].input.contains("prefix: Some(\"abc\")"), "prefix among parameters that differ in case");
 ''')
seed("c15-signed-headers-unsorted", "C15", "an Authorization header whose SignedHeaders list is not sorted",
 "signed headers are looked up by binary search in an unsorted list: a signed header is left out and the valid request is refused",
 [("src/service.rs", """        if let Some(mut a) = extract_authorization_v4(&ctx.headers)? {
            a.signed_headers.sort_unstable();
            a
""", """        if let Some(a) = extract_authorization_v4(&ctx.headers)? {
            a
""")],
 r'''
 let s = with_auth(fs_service());
 expect(signed(&s, "PUT", "/bucket", &[], &[], b"", None).await.ok(), "create the bucket");
 expect(signed(&s, "GET", "/bucket", &[], &[], b"", Some(&["x-amz-date", "host", "x-amz-content-sha256"])).await.ok(), "unsorted SignedHeaders list");
 ''')
seed("c16-hash-upper-case", "C16", "an x-amz-content-sha256 header in upper case hex digits",
 "a content hash that is not in the documented form is accepted",
 [("src/utils/crypto.rs", "let is_lowercase_hex = |&c: &u8| c.is_ascii_digit() || (b'a'..=b'f').contains(&c);", "let is_lowercase_hex = |c: &u8| c.is_ascii_hexdigit();")],
 r'''
 use s3_server::headers::AmzContentSha256;
 expect(AmzContentSha256::from_header_str(&sha(b"x")).is_ok(), "lower case hash");
 expect(AmzContentSha256::from_header_str(&sha(b"x").to_uppercase()).is_err(), "upper case hash is refused");
 ''')
seed("c16-seconds-unchecked", "C16", "an x-amz-date whose seconds are '+1'",
 "a timestamp with a sign in the seconds is accepted and formatted back as another text",
 [("src/headers/amz_date.rs", "[ss.0, ss.1, ss.2, ss.4, ss.5, ss.6]", "[ss.0, ss.1, ss.2, ss.4, ss.5]")],
 r'''
 use s3_server::headers::AmzDate;
 expect(AmzDate::from_header_str("20260101T101059Z").is_ok(), "a timestamp");
 expect(AmzDate::from_header_str("20260101T1010+1Z").is_err(), "a sign in the seconds is refused");
 ''')
seed("c17-expires-lenient", "C17", "a presigned URL whose X-Amz-Expires is not a number",
 "an X-Amz-Expires that cannot be parsed is treated as a week: a URL without valid expiry is served",
 [("src/signature_v4.rs", """            .parse()
            .map_err(|_err| ParsePresignedUrlError { _priv: () })?;

        if !info""", """            .parse()
            .unwrap_or(604_800);

        if !info""")],
 r'''
 let s = with_auth(fs_service());
 expect(signed(&s, "PUT", "/bucket", &[], &[], b"", None).await.ok(), "create the bucket");
 let d = signer().date;
 expect(frames(&s, "GET", &presign("GET", "/bucket", &[], &d, "600"), &[("host", "localhost")], &[]).await.ok(), "presigned URL");
 expect(!frames(&s, "GET", &presign("GET", "/bucket", &[], &d, "never"), &[("host", "localhost")], &[]).await.ok(), "X-Amz-Expires=never is refused");
 ''')
seed("c18-head-conditions-swapped", "C18", "a HEAD request with If-Modified-Since or If-Unmodified-Since",
 "the two conditions reach the storage in each other's field",
 [("src/ops/head_object.rs", "h.assign_str(IF_MODIFIED_SINCE, &mut input.if_modified_since);", "h.assign_str(IF_MODIFIED_SINCE, &mut input.if_unmodified_since);"),
  ("src/ops/head_object.rs", "h.assign_str(IF_UNMODIFIED_SINCE, &mut input.if_unmodified_since);", "h.assign_str(IF_UNMODIFIED_SINCE, &mut input.if_modified_since);")],
 r'''
 let rec = rec::Rec::default();
 let s = s3_server::S3Service::new(rec.clone());
 let _ = call(&s, "HEAD", "/bucket/k", &[("if-modified-since", "Tue, 01 Jan 2030 00:00:00 GMT")], b"").await;
 let c = rec.take_calls();
 expect(c.len() == 1 && c[0].input.contains("if_modified_since: Some(\"Tue"), "If-Modified-Since reaches if_modified_since");
 ''')
seed("c18-last-modified-local", "C18", "a server whose local time zone is not UTC",
 "the Last-Modified header carries the local time labelled GMT",
 [("src/utils/time.rs", "@", "@")], "")
del SEEDS["c18-last-modified-local"]
