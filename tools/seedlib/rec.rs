//! a storage which records what reaches it and answers what it is told to answer
use futures::StreamExt;
use s3_server::dto::*;
use s3_server::errors::S3StorageResult;
use s3_server::S3Storage;
use std::any::Any;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub op: &'static str,
    /// Debug text of the request with body and metadata taken out
    pub input: String,
    pub meta: Option<BTreeMap<String, String>>,
    pub body: Option<Vec<u8>>,
    pub body_err: bool,
}
#[derive(Default)]
pub struct Inner {
    pub calls: Vec<Call>,
    pub out: HashMap<&'static str, Box<dyn Any + Send>>,
}
#[derive(Clone, Default)]
pub struct Rec(pub Arc<Mutex<Inner>>);
impl std::fmt::Debug for Rec { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Rec") } }

pub trait Inp: std::fmt::Debug + Send {
    fn take_body(&mut self) -> Option<ByteStream> { None }
    fn take_meta(&mut self) -> Option<HashMap<String, String>> { None }
}
pub fn norm<I: Inp>(mut i: I) -> (String, Option<BTreeMap<String, String>>) {
    let _ = i.take_body();
    let m = i.take_meta().map(|m| m.into_iter().collect());
    (format!("{:?}", i), m)
}
impl Inp for PutObjectRequest {
    fn take_body(&mut self) -> Option<ByteStream> { self.body.take() }
    fn take_meta(&mut self) -> Option<HashMap<String, String>> { self.metadata.take() }
}
impl Inp for UploadPartRequest { fn take_body(&mut self) -> Option<ByteStream> { self.body.take() } }
impl Inp for CopyObjectRequest { fn take_meta(&mut self) -> Option<HashMap<String, String>> { self.metadata.take() } }
impl Inp for CreateMultipartUploadRequest { fn take_meta(&mut self) -> Option<HashMap<String, String>> { self.metadata.take() } }
macro_rules! plain { ($($t:ty),*) => { $(impl Inp for $t {})* } }
plain!(CompleteMultipartUploadRequest, CreateBucketRequest, DeleteBucketRequest, DeleteObjectRequest, DeleteObjectsRequest,
    GetBucketLocationRequest, GetObjectRequest, HeadBucketRequest, HeadObjectRequest, ListBucketsRequest, ListObjectsRequest, ListObjectsV2Request);

impl Rec {
    pub fn take_calls(&self) -> Vec<Call> { std::mem::take(&mut self.0.lock().unwrap().calls) }
    pub fn answer<O: Send + 'static, E: Send + 'static>(&self, op: &'static str, r: S3StorageResult<O, E>) {
        self.0.lock().unwrap().out.insert(op, Box::new(r));
    }
    async fn run<I: Inp, O: Send + 'static, E: Send + 'static>(&self, op: &'static str, mut i: I, dflt: O) -> S3StorageResult<O, E> {
        let stream = i.take_body();
        let meta = i.take_meta().map(|m| m.into_iter().collect());
        let idx = {
            let mut l = self.0.lock().unwrap();
            l.calls.push(Call { op, input: format!("{:?}", i), meta, body: None, body_err: false });
            l.calls.len() - 1
        };
        if let Some(mut s) = stream {
            let mut data = vec![];
            let mut err = false;
            while let Some(c) = s.next().await {
                match c {
                    Ok(b) => data.extend_from_slice(&b),
                    Err(_) => { err = true; break; }
                }
            }
            let mut l = self.0.lock().unwrap();
            if let Some(c) = l.calls.get_mut(idx) { c.body = Some(data); c.body_err = err; }
            if err {
                drop(l);
                return Err(s3_server::errors::S3Error::new(s3_server::errors::S3ErrorCode::IncompleteBody, "body").into());
            }
        }
        let o = self.0.lock().unwrap().out.remove(op);
        match o {
            Some(b) => *b.downcast::<S3StorageResult<O, E>>().expect("configured output has the wrong type"),
            None => Ok(dflt),
        }
    }
}
macro_rules! storage { ($($f:ident $n:literal $i:ty => $o:ty, $e:ty, $d:expr;)*) => {
    #[async_trait::async_trait]
    impl S3Storage for Rec {
        $(async fn $f(&self, input: $i) -> S3StorageResult<$o, $e> { self.run($n, input, $d).await })*
    }
    pub const OPS: &[&str] = &[$($n),*];
} }
storage! {
    complete_multipart_upload "CompleteMultipartUpload" CompleteMultipartUploadRequest => CompleteMultipartUploadOutput, CompleteMultipartUploadError, Default::default();
    copy_object "CopyObject" CopyObjectRequest => CopyObjectOutput, CopyObjectError, Default::default();
    create_multipart_upload "CreateMultipartUpload" CreateMultipartUploadRequest => CreateMultipartUploadOutput, CreateMultipartUploadError, Default::default();
    create_bucket "CreateBucket" CreateBucketRequest => CreateBucketOutput, CreateBucketError, Default::default();
    delete_bucket "DeleteBucket" DeleteBucketRequest => DeleteBucketOutput, DeleteBucketError, DeleteBucketOutput;
    delete_object "DeleteObject" DeleteObjectRequest => DeleteObjectOutput, DeleteObjectError, Default::default();
    delete_objects "DeleteObjects" DeleteObjectsRequest => DeleteObjectsOutput, DeleteObjectsError, Default::default();
    get_bucket_location "GetBucketLocation" GetBucketLocationRequest => GetBucketLocationOutput, GetBucketLocationError, Default::default();
    get_object "GetObject" GetObjectRequest => GetObjectOutput, GetObjectError, Default::default();
    head_bucket "HeadBucket" HeadBucketRequest => HeadBucketOutput, HeadBucketError, HeadBucketOutput;
    head_object "HeadObject" HeadObjectRequest => HeadObjectOutput, HeadObjectError, Default::default();
    list_buckets "ListBuckets" ListBucketsRequest => ListBucketsOutput, ListBucketsError, Default::default();
    list_objects "ListObjects" ListObjectsRequest => ListObjectsOutput, ListObjectsError, Default::default();
    list_objects_v2 "ListObjectsV2" ListObjectsV2Request => ListObjectsV2Output, ListObjectsV2Error, Default::default();
    put_object "PutObject" PutObjectRequest => PutObjectOutput, PutObjectError, Default::default();
    upload_part "UploadPart" UploadPartRequest => UploadPartOutput, UploadPartError, Default::default();
}
