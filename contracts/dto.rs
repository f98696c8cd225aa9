// generated by tools/mkdto.py from rusoto_s3 0.48 (the types /repo/src/dto.rs re-exports); do not edit
pub struct Bucket {
    pub creation_date: Option<String>,
    pub name: Option<String>,
}
impl Bucket { pub fn default() -> (r: Self) ensures r == (Bucket { creation_date: None, name: None }) { Bucket { creation_date: None, name: None } } }
pub enum CompleteMultipartUploadError { Never_ }
pub struct CompleteMultipartUploadOutput {
    pub bucket: Option<String>,
    pub bucket_key_enabled: Option<bool>,
    pub e_tag: Option<String>,
    pub expiration: Option<String>,
    pub key: Option<String>,
    pub location: Option<String>,
    pub request_charged: Option<String>,
    pub ssekms_key_id: Option<String>,
    pub server_side_encryption: Option<String>,
    pub version_id: Option<String>,
}
impl CompleteMultipartUploadOutput { pub fn default() -> (r: Self) ensures r == (CompleteMultipartUploadOutput { bucket: None, bucket_key_enabled: None, e_tag: None, expiration: None, key: None, location: None, request_charged: None, ssekms_key_id: None, server_side_encryption: None, version_id: None }) { CompleteMultipartUploadOutput { bucket: None, bucket_key_enabled: None, e_tag: None, expiration: None, key: None, location: None, request_charged: None, ssekms_key_id: None, server_side_encryption: None, version_id: None } } }
pub struct CompleteMultipartUploadRequest {
    pub bucket: String,
    pub expected_bucket_owner: Option<String>,
    pub key: String,
    pub multipart_upload: Option<CompletedMultipartUpload>,
    pub request_payer: Option<String>,
    pub upload_id: String,
}
pub struct CompletedMultipartUpload {
    pub parts: Option<Vec<CompletedPart>>,
}
impl CompletedMultipartUpload { pub fn default() -> (r: Self) ensures r == (CompletedMultipartUpload { parts: None }) { CompletedMultipartUpload { parts: None } } }
pub struct CompletedPart {
    pub e_tag: Option<String>,
    pub part_number: Option<i64>,
}
impl CompletedPart { pub fn default() -> (r: Self) ensures r == (CompletedPart { e_tag: None, part_number: None }) { CompletedPart { e_tag: None, part_number: None } } }
pub struct CopyObjectOutput {
    pub bucket_key_enabled: Option<bool>,
    pub copy_object_result: Option<CopyObjectResult>,
    pub copy_source_version_id: Option<String>,
    pub expiration: Option<String>,
    pub request_charged: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub ssekms_encryption_context: Option<String>,
    pub ssekms_key_id: Option<String>,
    pub server_side_encryption: Option<String>,
    pub version_id: Option<String>,
}
impl CopyObjectOutput { pub fn default() -> (r: Self) ensures r == (CopyObjectOutput { bucket_key_enabled: None, copy_object_result: None, copy_source_version_id: None, expiration: None, request_charged: None, sse_customer_algorithm: None, sse_customer_key_md5: None, ssekms_encryption_context: None, ssekms_key_id: None, server_side_encryption: None, version_id: None }) { CopyObjectOutput { bucket_key_enabled: None, copy_object_result: None, copy_source_version_id: None, expiration: None, request_charged: None, sse_customer_algorithm: None, sse_customer_key_md5: None, ssekms_encryption_context: None, ssekms_key_id: None, server_side_encryption: None, version_id: None } } }
pub struct CopyObjectRequest {
    pub acl: Option<String>,
    pub bucket: String,
    pub bucket_key_enabled: Option<bool>,
    pub cache_control: Option<String>,
    pub content_disposition: Option<String>,
    pub content_encoding: Option<String>,
    pub content_language: Option<String>,
    pub content_type: Option<String>,
    pub copy_source: String,
    pub copy_source_if_match: Option<String>,
    pub copy_source_if_modified_since: Option<String>,
    pub copy_source_if_none_match: Option<String>,
    pub copy_source_if_unmodified_since: Option<String>,
    pub copy_source_sse_customer_algorithm: Option<String>,
    pub copy_source_sse_customer_key: Option<String>,
    pub copy_source_sse_customer_key_md5: Option<String>,
    pub expected_bucket_owner: Option<String>,
    pub expected_source_bucket_owner: Option<String>,
    pub expires: Option<String>,
    pub grant_full_control: Option<String>,
    pub grant_read: Option<String>,
    pub grant_read_acp: Option<String>,
    pub grant_write_acp: Option<String>,
    pub key: String,
    pub metadata: Option<HashMap<String, String>>,
    pub metadata_directive: Option<String>,
    pub object_lock_legal_hold_status: Option<String>,
    pub object_lock_mode: Option<String>,
    pub object_lock_retain_until_date: Option<String>,
    pub request_payer: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub ssekms_encryption_context: Option<String>,
    pub ssekms_key_id: Option<String>,
    pub server_side_encryption: Option<String>,
    pub storage_class: Option<String>,
    pub tagging: Option<String>,
    pub tagging_directive: Option<String>,
    pub website_redirect_location: Option<String>,
}
pub struct CopyObjectResult {
    pub e_tag: Option<String>,
    pub last_modified: Option<String>,
}
impl CopyObjectResult { pub fn default() -> (r: Self) ensures r == (CopyObjectResult { e_tag: None, last_modified: None }) { CopyObjectResult { e_tag: None, last_modified: None } } }
pub struct CreateBucketConfiguration {
    pub location_constraint: Option<String>,
}
impl CreateBucketConfiguration { pub fn default() -> (r: Self) ensures r == (CreateBucketConfiguration { location_constraint: None }) { CreateBucketConfiguration { location_constraint: None } } }
pub struct CreateBucketOutput {
    pub location: Option<String>,
}
impl CreateBucketOutput { pub fn default() -> (r: Self) ensures r == (CreateBucketOutput { location: None }) { CreateBucketOutput { location: None } } }
pub struct CreateBucketRequest {
    pub acl: Option<String>,
    pub bucket: String,
    pub create_bucket_configuration: Option<CreateBucketConfiguration>,
    pub grant_full_control: Option<String>,
    pub grant_read: Option<String>,
    pub grant_read_acp: Option<String>,
    pub grant_write: Option<String>,
    pub grant_write_acp: Option<String>,
    pub object_lock_enabled_for_bucket: Option<bool>,
}
pub enum CreateMultipartUploadError { Never_ }
pub struct CreateMultipartUploadOutput {
    pub abort_date: Option<String>,
    pub abort_rule_id: Option<String>,
    pub bucket: Option<String>,
    pub bucket_key_enabled: Option<bool>,
    pub key: Option<String>,
    pub request_charged: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub ssekms_encryption_context: Option<String>,
    pub ssekms_key_id: Option<String>,
    pub server_side_encryption: Option<String>,
    pub upload_id: Option<String>,
}
impl CreateMultipartUploadOutput { pub fn default() -> (r: Self) ensures r == (CreateMultipartUploadOutput { abort_date: None, abort_rule_id: None, bucket: None, bucket_key_enabled: None, key: None, request_charged: None, sse_customer_algorithm: None, sse_customer_key_md5: None, ssekms_encryption_context: None, ssekms_key_id: None, server_side_encryption: None, upload_id: None }) { CreateMultipartUploadOutput { abort_date: None, abort_rule_id: None, bucket: None, bucket_key_enabled: None, key: None, request_charged: None, sse_customer_algorithm: None, sse_customer_key_md5: None, ssekms_encryption_context: None, ssekms_key_id: None, server_side_encryption: None, upload_id: None } } }
pub struct CreateMultipartUploadRequest {
    pub acl: Option<String>,
    pub bucket: String,
    pub bucket_key_enabled: Option<bool>,
    pub cache_control: Option<String>,
    pub content_disposition: Option<String>,
    pub content_encoding: Option<String>,
    pub content_language: Option<String>,
    pub content_type: Option<String>,
    pub expected_bucket_owner: Option<String>,
    pub expires: Option<String>,
    pub grant_full_control: Option<String>,
    pub grant_read: Option<String>,
    pub grant_read_acp: Option<String>,
    pub grant_write_acp: Option<String>,
    pub key: String,
    pub metadata: Option<HashMap<String, String>>,
    pub object_lock_legal_hold_status: Option<String>,
    pub object_lock_mode: Option<String>,
    pub object_lock_retain_until_date: Option<String>,
    pub request_payer: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub ssekms_encryption_context: Option<String>,
    pub ssekms_key_id: Option<String>,
    pub server_side_encryption: Option<String>,
    pub storage_class: Option<String>,
    pub tagging: Option<String>,
    pub website_redirect_location: Option<String>,
}
pub struct Delete {
    pub objects: Vec<ObjectIdentifier>,
    pub quiet: Option<bool>,
}
pub enum DeleteBucketError { Never_ }
pub struct DeleteBucketRequest {
    pub bucket: String,
    pub expected_bucket_owner: Option<String>,
}
pub enum DeleteObjectError { Never_ }
pub struct DeleteObjectOutput {
    pub delete_marker: Option<bool>,
    pub request_charged: Option<String>,
    pub version_id: Option<String>,
}
impl DeleteObjectOutput { pub fn default() -> (r: Self) ensures r == (DeleteObjectOutput { delete_marker: None, request_charged: None, version_id: None }) { DeleteObjectOutput { delete_marker: None, request_charged: None, version_id: None } } }
pub struct DeleteObjectRequest {
    pub bucket: String,
    pub bypass_governance_retention: Option<bool>,
    pub expected_bucket_owner: Option<String>,
    pub key: String,
    pub mfa: Option<String>,
    pub request_payer: Option<String>,
    pub version_id: Option<String>,
}
pub enum DeleteObjectsError { Never_ }
pub struct DeleteObjectsOutput {
    pub deleted: Option<Vec<DeletedObject>>,
    pub errors: Option<Vec<RusotoS3Error>>,
    pub request_charged: Option<String>,
}
impl DeleteObjectsOutput { pub fn default() -> (r: Self) ensures r == (DeleteObjectsOutput { deleted: None, errors: None, request_charged: None }) { DeleteObjectsOutput { deleted: None, errors: None, request_charged: None } } }
pub struct DeleteObjectsRequest {
    pub bucket: String,
    pub bypass_governance_retention: Option<bool>,
    pub delete: Delete,
    pub expected_bucket_owner: Option<String>,
    pub mfa: Option<String>,
    pub request_payer: Option<String>,
}
pub struct DeletedObject {
    pub delete_marker: Option<bool>,
    pub delete_marker_version_id: Option<String>,
    pub key: Option<String>,
    pub version_id: Option<String>,
}
impl DeletedObject { pub fn default() -> (r: Self) ensures r == (DeletedObject { delete_marker: None, delete_marker_version_id: None, key: None, version_id: None }) { DeletedObject { delete_marker: None, delete_marker_version_id: None, key: None, version_id: None } } }
pub enum GetBucketLocationError { Never_ }
pub struct GetBucketLocationOutput {
    pub location_constraint: Option<String>,
}
impl GetBucketLocationOutput { pub fn default() -> (r: Self) ensures r == (GetBucketLocationOutput { location_constraint: None }) { GetBucketLocationOutput { location_constraint: None } } }
pub struct GetBucketLocationRequest {
    pub bucket: String,
    pub expected_bucket_owner: Option<String>,
}
pub struct GetObjectOutput {
    pub accept_ranges: Option<String>,
    pub body: Option<ByteStream>,
    pub bucket_key_enabled: Option<bool>,
    pub cache_control: Option<String>,
    pub content_disposition: Option<String>,
    pub content_encoding: Option<String>,
    pub content_language: Option<String>,
    pub content_length: Option<i64>,
    pub content_range: Option<String>,
    pub content_type: Option<String>,
    pub delete_marker: Option<bool>,
    pub e_tag: Option<String>,
    pub expiration: Option<String>,
    pub expires: Option<String>,
    pub last_modified: Option<String>,
    pub metadata: Option<HashMap<String, String>>,
    pub missing_meta: Option<i64>,
    pub object_lock_legal_hold_status: Option<String>,
    pub object_lock_mode: Option<String>,
    pub object_lock_retain_until_date: Option<String>,
    pub parts_count: Option<i64>,
    pub replication_status: Option<String>,
    pub request_charged: Option<String>,
    pub restore: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub ssekms_key_id: Option<String>,
    pub server_side_encryption: Option<String>,
    pub storage_class: Option<String>,
    pub tag_count: Option<i64>,
    pub version_id: Option<String>,
    pub website_redirect_location: Option<String>,
}
impl GetObjectOutput { pub fn default() -> (r: Self) ensures r == (GetObjectOutput { accept_ranges: None, body: None, bucket_key_enabled: None, cache_control: None, content_disposition: None, content_encoding: None, content_language: None, content_length: None, content_range: None, content_type: None, delete_marker: None, e_tag: None, expiration: None, expires: None, last_modified: None, metadata: None, missing_meta: None, object_lock_legal_hold_status: None, object_lock_mode: None, object_lock_retain_until_date: None, parts_count: None, replication_status: None, request_charged: None, restore: None, sse_customer_algorithm: None, sse_customer_key_md5: None, ssekms_key_id: None, server_side_encryption: None, storage_class: None, tag_count: None, version_id: None, website_redirect_location: None }) { GetObjectOutput { accept_ranges: None, body: None, bucket_key_enabled: None, cache_control: None, content_disposition: None, content_encoding: None, content_language: None, content_length: None, content_range: None, content_type: None, delete_marker: None, e_tag: None, expiration: None, expires: None, last_modified: None, metadata: None, missing_meta: None, object_lock_legal_hold_status: None, object_lock_mode: None, object_lock_retain_until_date: None, parts_count: None, replication_status: None, request_charged: None, restore: None, sse_customer_algorithm: None, sse_customer_key_md5: None, ssekms_key_id: None, server_side_encryption: None, storage_class: None, tag_count: None, version_id: None, website_redirect_location: None } } }
pub struct GetObjectRequest {
    pub bucket: String,
    pub expected_bucket_owner: Option<String>,
    pub if_match: Option<String>,
    pub if_modified_since: Option<String>,
    pub if_none_match: Option<String>,
    pub if_unmodified_since: Option<String>,
    pub key: String,
    pub part_number: Option<i64>,
    pub range: Option<String>,
    pub request_payer: Option<String>,
    pub response_cache_control: Option<String>,
    pub response_content_disposition: Option<String>,
    pub response_content_encoding: Option<String>,
    pub response_content_language: Option<String>,
    pub response_content_type: Option<String>,
    pub response_expires: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub version_id: Option<String>,
}
pub struct HeadBucketRequest {
    pub bucket: String,
    pub expected_bucket_owner: Option<String>,
}
pub struct HeadObjectOutput {
    pub accept_ranges: Option<String>,
    pub archive_status: Option<String>,
    pub bucket_key_enabled: Option<bool>,
    pub cache_control: Option<String>,
    pub content_disposition: Option<String>,
    pub content_encoding: Option<String>,
    pub content_language: Option<String>,
    pub content_length: Option<i64>,
    pub content_type: Option<String>,
    pub delete_marker: Option<bool>,
    pub e_tag: Option<String>,
    pub expiration: Option<String>,
    pub expires: Option<String>,
    pub last_modified: Option<String>,
    pub metadata: Option<HashMap<String, String>>,
    pub missing_meta: Option<i64>,
    pub object_lock_legal_hold_status: Option<String>,
    pub object_lock_mode: Option<String>,
    pub object_lock_retain_until_date: Option<String>,
    pub parts_count: Option<i64>,
    pub replication_status: Option<String>,
    pub request_charged: Option<String>,
    pub restore: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub ssekms_key_id: Option<String>,
    pub server_side_encryption: Option<String>,
    pub storage_class: Option<String>,
    pub version_id: Option<String>,
    pub website_redirect_location: Option<String>,
}
impl HeadObjectOutput { pub fn default() -> (r: Self) ensures r == (HeadObjectOutput { accept_ranges: None, archive_status: None, bucket_key_enabled: None, cache_control: None, content_disposition: None, content_encoding: None, content_language: None, content_length: None, content_type: None, delete_marker: None, e_tag: None, expiration: None, expires: None, last_modified: None, metadata: None, missing_meta: None, object_lock_legal_hold_status: None, object_lock_mode: None, object_lock_retain_until_date: None, parts_count: None, replication_status: None, request_charged: None, restore: None, sse_customer_algorithm: None, sse_customer_key_md5: None, ssekms_key_id: None, server_side_encryption: None, storage_class: None, version_id: None, website_redirect_location: None }) { HeadObjectOutput { accept_ranges: None, archive_status: None, bucket_key_enabled: None, cache_control: None, content_disposition: None, content_encoding: None, content_language: None, content_length: None, content_type: None, delete_marker: None, e_tag: None, expiration: None, expires: None, last_modified: None, metadata: None, missing_meta: None, object_lock_legal_hold_status: None, object_lock_mode: None, object_lock_retain_until_date: None, parts_count: None, replication_status: None, request_charged: None, restore: None, sse_customer_algorithm: None, sse_customer_key_md5: None, ssekms_key_id: None, server_side_encryption: None, storage_class: None, version_id: None, website_redirect_location: None } } }
pub struct HeadObjectRequest {
    pub bucket: String,
    pub expected_bucket_owner: Option<String>,
    pub if_match: Option<String>,
    pub if_modified_since: Option<String>,
    pub if_none_match: Option<String>,
    pub if_unmodified_since: Option<String>,
    pub key: String,
    pub part_number: Option<i64>,
    pub range: Option<String>,
    pub request_payer: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub version_id: Option<String>,
}
pub enum ListBucketsError { Never_ }
pub struct ListBucketsOutput {
    pub buckets: Option<Vec<Bucket>>,
    pub owner: Option<Owner>,
}
impl ListBucketsOutput { pub fn default() -> (r: Self) ensures r == (ListBucketsOutput { buckets: None, owner: None }) { ListBucketsOutput { buckets: None, owner: None } } }
pub struct ListObjectsOutput {
    pub common_prefixes: Option<Vec<CommonPrefix>>,
    pub contents: Option<Vec<Object>>,
    pub delimiter: Option<String>,
    pub encoding_type: Option<String>,
    pub is_truncated: Option<bool>,
    pub marker: Option<String>,
    pub max_keys: Option<i64>,
    pub name: Option<String>,
    pub next_marker: Option<String>,
    pub prefix: Option<String>,
}
impl ListObjectsOutput { pub fn default() -> (r: Self) ensures r == (ListObjectsOutput { common_prefixes: None, contents: None, delimiter: None, encoding_type: None, is_truncated: None, marker: None, max_keys: None, name: None, next_marker: None, prefix: None }) { ListObjectsOutput { common_prefixes: None, contents: None, delimiter: None, encoding_type: None, is_truncated: None, marker: None, max_keys: None, name: None, next_marker: None, prefix: None } } }
pub struct ListObjectsRequest {
    pub bucket: String,
    pub delimiter: Option<String>,
    pub encoding_type: Option<String>,
    pub expected_bucket_owner: Option<String>,
    pub marker: Option<String>,
    pub max_keys: Option<i64>,
    pub prefix: Option<String>,
    pub request_payer: Option<String>,
}
pub struct ListObjectsV2Output {
    pub common_prefixes: Option<Vec<CommonPrefix>>,
    pub contents: Option<Vec<Object>>,
    pub continuation_token: Option<String>,
    pub delimiter: Option<String>,
    pub encoding_type: Option<String>,
    pub is_truncated: Option<bool>,
    pub key_count: Option<i64>,
    pub max_keys: Option<i64>,
    pub name: Option<String>,
    pub next_continuation_token: Option<String>,
    pub prefix: Option<String>,
    pub start_after: Option<String>,
}
impl ListObjectsV2Output { pub fn default() -> (r: Self) ensures r == (ListObjectsV2Output { common_prefixes: None, contents: None, continuation_token: None, delimiter: None, encoding_type: None, is_truncated: None, key_count: None, max_keys: None, name: None, next_continuation_token: None, prefix: None, start_after: None }) { ListObjectsV2Output { common_prefixes: None, contents: None, continuation_token: None, delimiter: None, encoding_type: None, is_truncated: None, key_count: None, max_keys: None, name: None, next_continuation_token: None, prefix: None, start_after: None } } }
pub struct ListObjectsV2Request {
    pub bucket: String,
    pub continuation_token: Option<String>,
    pub delimiter: Option<String>,
    pub encoding_type: Option<String>,
    pub expected_bucket_owner: Option<String>,
    pub fetch_owner: Option<bool>,
    pub max_keys: Option<i64>,
    pub prefix: Option<String>,
    pub request_payer: Option<String>,
    pub start_after: Option<String>,
}
pub struct Object {
    pub e_tag: Option<String>,
    pub key: Option<String>,
    pub last_modified: Option<String>,
    pub owner: Option<Owner>,
    pub size: Option<i64>,
    pub storage_class: Option<String>,
}
impl Object { pub fn default() -> (r: Self) ensures r == (Object { e_tag: None, key: None, last_modified: None, owner: None, size: None, storage_class: None }) { Object { e_tag: None, key: None, last_modified: None, owner: None, size: None, storage_class: None } } }
pub struct ObjectIdentifier {
    pub key: String,
    pub version_id: Option<String>,
}
pub struct Owner {
    pub display_name: Option<String>,
    pub id: Option<String>,
}
impl Owner { pub fn default() -> (r: Self) ensures r == (Owner { display_name: None, id: None }) { Owner { display_name: None, id: None } } }
pub enum PutObjectError { Never_ }
pub struct PutObjectOutput {
    pub bucket_key_enabled: Option<bool>,
    pub e_tag: Option<String>,
    pub expiration: Option<String>,
    pub request_charged: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub ssekms_encryption_context: Option<String>,
    pub ssekms_key_id: Option<String>,
    pub server_side_encryption: Option<String>,
    pub version_id: Option<String>,
}
impl PutObjectOutput { pub fn default() -> (r: Self) ensures r == (PutObjectOutput { bucket_key_enabled: None, e_tag: None, expiration: None, request_charged: None, sse_customer_algorithm: None, sse_customer_key_md5: None, ssekms_encryption_context: None, ssekms_key_id: None, server_side_encryption: None, version_id: None }) { PutObjectOutput { bucket_key_enabled: None, e_tag: None, expiration: None, request_charged: None, sse_customer_algorithm: None, sse_customer_key_md5: None, ssekms_encryption_context: None, ssekms_key_id: None, server_side_encryption: None, version_id: None } } }
pub struct PutObjectRequest {
    pub acl: Option<String>,
    pub body: Option<ByteStream>,
    pub bucket: String,
    pub bucket_key_enabled: Option<bool>,
    pub cache_control: Option<String>,
    pub content_disposition: Option<String>,
    pub content_encoding: Option<String>,
    pub content_language: Option<String>,
    pub content_length: Option<i64>,
    pub content_md5: Option<String>,
    pub content_type: Option<String>,
    pub expected_bucket_owner: Option<String>,
    pub expires: Option<String>,
    pub grant_full_control: Option<String>,
    pub grant_read: Option<String>,
    pub grant_read_acp: Option<String>,
    pub grant_write_acp: Option<String>,
    pub key: String,
    pub metadata: Option<HashMap<String, String>>,
    pub object_lock_legal_hold_status: Option<String>,
    pub object_lock_mode: Option<String>,
    pub object_lock_retain_until_date: Option<String>,
    pub request_payer: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub ssekms_encryption_context: Option<String>,
    pub ssekms_key_id: Option<String>,
    pub server_side_encryption: Option<String>,
    pub storage_class: Option<String>,
    pub tagging: Option<String>,
    pub website_redirect_location: Option<String>,
}
pub enum UploadPartError { Never_ }
pub struct UploadPartOutput {
    pub bucket_key_enabled: Option<bool>,
    pub e_tag: Option<String>,
    pub request_charged: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub ssekms_key_id: Option<String>,
    pub server_side_encryption: Option<String>,
}
impl UploadPartOutput { pub fn default() -> (r: Self) ensures r == (UploadPartOutput { bucket_key_enabled: None, e_tag: None, request_charged: None, sse_customer_algorithm: None, sse_customer_key_md5: None, ssekms_key_id: None, server_side_encryption: None }) { UploadPartOutput { bucket_key_enabled: None, e_tag: None, request_charged: None, sse_customer_algorithm: None, sse_customer_key_md5: None, ssekms_key_id: None, server_side_encryption: None } } }
pub struct UploadPartRequest {
    pub body: Option<ByteStream>,
    pub bucket: String,
    pub content_length: Option<i64>,
    pub content_md5: Option<String>,
    pub expected_bucket_owner: Option<String>,
    pub key: String,
    pub part_number: i64,
    pub request_payer: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub upload_id: String,
}
pub struct RusotoS3Error {
    pub code: Option<String>,
    pub key: Option<String>,
    pub message: Option<String>,
    pub version_id: Option<String>,
}
impl RusotoS3Error { pub fn default() -> (r: Self) ensures r == (RusotoS3Error { code: None, key: None, message: None, version_id: None }) { RusotoS3Error { code: None, key: None, message: None, version_id: None } } }
pub struct CommonPrefix {
    pub prefix: Option<String>,
}
impl CommonPrefix { pub fn default() -> (r: Self) ensures r == (CommonPrefix { prefix: None }) { CommonPrefix { prefix: None } } }
pub struct DeleteBucketOutput;
pub struct HeadBucketOutput;
pub struct ListBucketsRequest;
