UNITS = {"u07_path": {}, "u09_ordered": {}, "u10_headers": {}, "u01_sigv4": {}, "u02_chunked": {}, "u08_errors": {}, "u04_gate": {}, "u05_fs": {}, "u06_bytes": {}, "u03_multipart": {}, "u11_out": {}}
B = "Bounded stand-in only so far: random executable contract on the compiled code."
prop("C13", {"u07_path": "*", "u04_gate": ["extract_s3_path", "decode_uri_path"]}, "Proved for every string: check_bucket_name, check_key and S3Path::try_from_path return exactly what the naming rules say (Verus, no bound). Trusted: listed std specifications, IpAddr::parse modelled as an uninterpreted predicate tied to dotted quads, the extraction rules. The HTTP-level part is a bounded run.")
prop("C15", {"u09_ordered": "*"}, "Proved for every input list: from_query / from_req build the sorted list of pairs, get returns the value of a pair with that name, or nothing when there is none, assign / assign_str parse it, map_signed_headers selects exactly the named headers in order (Verus, no bound). Trusted: listed std and hyper specifications (sort, binary search, urldecode), the extraction rules. The HTTP-level part is a bounded run.")
prop("C16", {"u10_headers": "*"}, "Proved for every string: the parsers of x-amz-date, x-amz-content-sha256, Range, the credential scope and the Authorization header accept exactly the stated grammar and return exactly its parts; to_iso8601 gives back the parsed text (Verus, no bound). Trusted: the definitions of the nom parsers (contracts/nom.rs), str::parse for integers, chrono's calendar, the extraction rules. The HTTP-level part is a bounded run.")
prop("C05", {"u10_headers": ["Range::from_header_str", "Range::from_header_str/parse"], "u05_fs": ["FileSystem::get_object_path", "FileSystem=S3Storage::get_object"], "u06_bytes": "*"}, "Proved for every string, object and range: Range::from_header_str accepts exactly bytes=FIRST-[LAST] with FIRST <= LAST and bytes=-N within 64 bits and returns the numbers; GetObject answers with exactly the selected bytes of the object and their number, or with InvalidRange when there are none (Verus, no bound). Trusted: the model of the file system calls (contracts/fsm.rs), tokio's AsyncRead, that collecting a stream gives what its poll_next contract says, the extraction rules. The HTTP level is a bounded run.")
prop("C02", {"u01_sigv4": "*", "u09_ordered": ["OrderedHeaders::map_signed_headers"], "u10_headers": ["AmzDate::to_iso8601", "AmzDate::to_date"]}, "Proved for every request: uri_encode, the canonical request of both forms, the string to sign, the key derivation and the signature are exactly those AWS Signature Version 4 defines (Verus, no bound). Trusted: SHA-256 and HMAC-SHA-256 (uninterpreted), listed std specifications, the extraction rules. Acceptance of signed requests over HTTP is a bounded run.")
prop("C14", {"u08_errors": "*", "u04_gate": ["S3Service::hyper_call"]}, "Proved for every error: the status and name of each code, the response built from an error, the conversion of every operation error to the code of the same name (Verus, no bound). Trusted: the XML writer's events and hyper's response type. That every failure ends in such a response is a bounded run.")
prop("C17", {"u01_sigv4": ["PresignedUrl::from_query", "PresignedUrl::from_query#get_info"], "u10_headers": ["AmzDate::from_header_str", "AmzDate::from_header_str/parse", "AmzDate::from_header_str/to_u32", "CredentialV4::parse_by_nom", "CredentialV4::verify_date"], "u04_gate": ["check_presigned_url", "check_post_policy_expiration", "check_post_signature", "check_post_signature/find_info", "AmzDate::to_naive_date_time", "Multipart::find_field_value", "check_signature"]}, "Proved for every request and every clock value: a presigned URL is allowed only if its date exists and no more than X-Amz-Expires whole seconds have passed since, a POST policy only until its expiration; PresignedUrl::from_query accepts only a query with all six parameters in valid form (Verus, no bound). Trusted: chrono's calendar and RFC 3339 parser, the clock, base64 and JSON decoding. Acceptance over HTTP is a bounded run.")
prop("C12", {"u04_gate": ["S3Service::handle", "S3Service::hyper_call", "is_unsupported_sub_resource", "S3Path::is_object", "S3Path::is_bucket", "S3Path::is_root"]}, "Proved for every request: handle answers it with the first operation that matches, or with MethodNotAllowed, NotImplemented (exactly the sub-resources of the S3 API that are not implemented) or NotSupported, or with the error of the part that cannot be read; the functions under contract do not panic (Verus, no bound). Which request an operation matches is a bounded run so far.")
prop("C01", {"u04_gate": "*", "u01_sigv4": ["PresignedUrl::from_query", "PresignedUrl::from_query#get_info", "create_canonical_request", "create_presigned_canonical_request", "create_string_to_sign", "calculate_signature"], "u09_ordered": ["OrderedHeaders::get", "OrderedHeaders::from_req", "OrderedQs::from_query", "OrderedQs::get", "OrderedHeaders::map_signed_headers"], "u10_headers": ["AuthorizationV4::from_header_str", "CredentialV4::parse_by_nom", "AmzDate::from_header_str", "AmzContentSha256::from_header_str"]}, "Proved for every request, provider and clock value: S3Service::handle reaches an operation only with a request that check_signature allowed, and check_signature allows exactly a form, presigned URL or Authorization header whose signature under the provider's secret for the named access key is the SigV4 signature of this very request (or, without a provider, a request that carries no signature); a refused request is answered with an error (Verus, no bound). Trusted: SHA-256/HMAC (uninterpreted), hyper's request types, the form parser and the chunk decoder (C03, C04), the listed std specifications, the extraction rules. The wire-level part is a bounded run.")
prop("C03", {"u02_chunked": "*", "u01_sigv4": ["create_chunk_string_to_sign", "calculate_signature", "hex_sha256_chunk"]}, "Proved for every body, however it is split into frames: what the decoder hands on is exactly the data of the leading chunks whose size, signature (SigV4 over the previous signature and the data), CRLFs are right, and it ends well only at a signed empty chunk; otherwise with the error that fits (Verus, no bound). Trusted: nom's complete byte parsers, memchr, hyper's Bytes, SHA-256/HMAC (uninterpreted), the stream wrapper that hands a generator's items on. That the gateway decodes the payload this way is a bounded run.")
FSX = "Trusted: the model of the file system calls (contracts/fsm.rs: async_fs, std::path, path_absolutize, uuid, serde_json, md5 uninterpreted), that what the operating system is asked to do happens when it is possible, the extraction rules; sequential use only."
FN = lambda *n: ["FileSystem=S3Storage::" + i for i in n]
FP = ["FileSystem::get_object_path", "FileSystem::get_bucket_path", "FileSystem::get_metadata_path", "FileSystem::get_part_path", "FileSystem::get_tmp_path"]
FM = ["FileSystem::load_metadata", "FileSystem::save_metadata", "FileSystem::delete_metadata", "FileSystem::get_md5_sum"]
prop("C06", {"u05_fs": "*", "u07_path": "*"}, "Proved for every request and every state of the file tree: each operation of the file system storage touches only files below the directory of the named bucket and the server's own metadata, part and temporary files directly in the root, which differ from every object's file; a key, upload id or copy source that would resolve elsewhere is refused (Verus, no bound). " + FSX + " The HTTP level is a bounded run.")
prop("C07", {"u05_fs": FP + FM + ["copy_bytes"] + FN("put_object", "get_object", "head_object", "head_bucket", "create_bucket", "delete_bucket", "get_bucket_location"), "u06_bytes": "*", "u11_out": ["GetObjectOutput=S3Output::try_into_response", "HeadObjectOutput=S3Output::try_into_response", "PutObjectOutput=S3Output::try_into_response"]}, "Proved for every key, body, metadata and state: a successful PUT stores exactly the bytes of the body and the metadata given and returns their MD5, a failing body leaves object and metadata as they were, GET and HEAD return exactly the stored bytes, length, MD5 and metadata, and every other object stays as it was (Verus, no bound). " + FSX + " The HTTP level is a bounded run.")
prop("C09", {"u05_fs": FP + ["FileSystem::delete_metadata"] + FN("delete_object", "delete_objects"), "u11_out": ["DeleteObjectOutput=S3Output::try_into_response", "DeleteObjectsOutput=S3Output::try_into_response"]}, "Proved for every key list and state: a successful delete removes exactly the file and the metadata of the named objects, every other file stays, and each named object that exists is reported (Verus, no bound). " + FSX + " The XML of the multi-object delete is a bounded run.")
prop("C10", {"u05_fs": FP + ["FileSystem::delete_metadata", "FileSystem::get_md5_sum", "copy_bytes"] + FN("create_multipart_upload", "upload_part", "complete_multipart_upload"), "u11_out": ["CompleteMultipartUploadOutput=S3Output::try_into_response", "CreateMultipartUploadOutput=S3Output::try_into_response", "UploadPartOutput=S3Output::try_into_response"]}, "Proved for every part list and state: a successful completion stores exactly the concatenation of parts 1..n with its MD5 and removes these parts, a list with a missing part or out of order changes nothing, and the files of different uploads, parts and objects differ (Verus, no bound). " + FSX + " That two upload ids differ (random UUIDs) is assumed; the HTTP level is a bounded run.")
prop("C11", {"u05_fs": FP + FM + FN("copy_object"), "u07_path": ["AmzCopySource::from_header_str", "AmzCopySource::try_match", "S3Path::check_bucket_name", "S3Path::check_key"], "u11_out": ["CopyObjectOutput=S3Output::try_into_response"]}, "Proved for every copy source, destination and state: a successful copy gives the destination exactly the bytes and metadata of the source and leaves every other object as it was; a source that does not exist, cannot be parsed or lies in no valid bucket is refused and changes nothing (Verus, no bound). " + FSX + " The HTTP level is a bounded run.")
prop("C08", {"u05_fs": FP + FN("list_objects", "list_objects_v2", "list_buckets"), "u07_path": ["S3Path::check_bucket_name"], "u11_out": ["ListObjectsOutput=S3Output::try_into_response", "ListObjectsV2Output=S3Output::try_into_response", "ListBucketsOutput=S3Output::try_into_response"]}, "Proved for every bucket, prefix and file tree: a successful listing holds exactly the objects below the bucket's directory whose key starts with the prefix, each once, with its size and time, in the order of the keys (version 2 also their number); a missing bucket is NoSuchBucket; the bucket list holds exactly the directories with valid bucket names, each once (Verus, no bound). " + FSX + " Assumed: every file lies in directories that exist (no links). The HTTP level is a bounded run.")
prop("C04", {"u03_multipart": "*", "u04_gate": ["Multipart::find_field_value"]}, "Proved for every body, boundary and split into frames: transform_multipart returns exactly the fields, file name and content type of the form, and the file stream yields exactly the bytes up to the first CR LF -- boundary, or an error when there is none; a form that is as it should be is accepted, one that is not is refused; a repeated field is looked up by its last value. Trusted: httparse header blocks (read from left to right, uninterpreted), memchr, bytes, std utf-8, that the transform_stream adaptor hands on what its generator yields, and the extraction. The executable contract is replayed on the compiled code as well.")
prop("C18", {"u11_out": "*", "u08_errors": ["Response::new_with_status", "Response::set_optional_header", "Response::set_mime", "Response::set_status", "Response::set_metadata_headers", "EventWriter::element", "EventWriter::opt_element", "S3StorageResult=S3Output::try_into_response"]}, "Proved for every output value of all 16 operations (response half): try_into_response answers with the documented status, each field of the output in the header field or XML element the S3 API names for it with its value unchanged, the user metadata, the body of the object, and nothing else; it fails only when a value cannot be a header value (Verus, no bound). Trusted: http's header map and hyper's body, that xml-rs's writer emits the events it is given so that a parser reads them back, chrono's date formatting, Display of numbers. The request half (extractors) and the XML reading are a bounded run on the compiled code.")
NA = [
 {"property": "C19", "reason": "The property is about interleavings of concurrent requests over tokio and the file system; a sequential deductive verifier over extracted functions (Verus without permission types for the async runtime and the OS) cannot express the schedule, and the code offers no locks or atomics to attach contracts to."},
 {"property": "C20", "reason": "The property quantifies over crash points between system calls and the durability semantics of the host file system; there is no contract on the code under verification that expresses the state after a kill in the middle of a call."},
]
NOTES = "See DESIGN.md. Verus units are regenerated from /repo/src on every run; UNDECIDED lines report obligations that could not be stated on changed code and are never alarms."
