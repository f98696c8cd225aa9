/// the name of an error code (S3 API reference: Error responses)
pub open spec fn code_name(c: S3ErrorCode) -> Seq<char> {
    match c {
        S3ErrorCode::AccessDenied => "AccessDenied"@,
        S3ErrorCode::AccountProblem => "AccountProblem"@,
        S3ErrorCode::AllAccessDisabled => "AllAccessDisabled"@,
        S3ErrorCode::AmbiguousGrantByEmailAddress => "AmbiguousGrantByEmailAddress"@,
        S3ErrorCode::AuthorizationHeaderMalformed => "AuthorizationHeaderMalformed"@,
        S3ErrorCode::BadDigest => "BadDigest"@,
        S3ErrorCode::BucketAlreadyExists => "BucketAlreadyExists"@,
        S3ErrorCode::BucketAlreadyOwnedByYou => "BucketAlreadyOwnedByYou"@,
        S3ErrorCode::BucketNotEmpty => "BucketNotEmpty"@,
        S3ErrorCode::CredentialsNotSupported => "CredentialsNotSupported"@,
        S3ErrorCode::CrossLocationLoggingProhibited => "CrossLocationLoggingProhibited"@,
        S3ErrorCode::EntityTooSmall => "EntityTooSmall"@,
        S3ErrorCode::EntityTooLarge => "EntityTooLarge"@,
        S3ErrorCode::ExpiredToken => "ExpiredToken"@,
        S3ErrorCode::IllegalLocationConstraintException => "IllegalLocationConstraintException"@,
        S3ErrorCode::IllegalVersioningConfigurationException => "IllegalVersioningConfigurationException"@,
        S3ErrorCode::IncompleteBody => "IncompleteBody"@,
        S3ErrorCode::IncorrectNumberOfFilesInPostRequest => "IncorrectNumberOfFilesInPostRequest"@,
        S3ErrorCode::InlineDataTooLarge => "InlineDataTooLarge"@,
        S3ErrorCode::InternalError => "InternalError"@,
        S3ErrorCode::InvalidAccessKeyId => "InvalidAccessKeyId"@,
        S3ErrorCode::InvalidAddressingHeader => "InvalidAddressingHeader"@,
        S3ErrorCode::InvalidArgument => "InvalidArgument"@,
        S3ErrorCode::InvalidBucketName => "InvalidBucketName"@,
        S3ErrorCode::InvalidBucketState => "InvalidBucketState"@,
        S3ErrorCode::InvalidDigest => "InvalidDigest"@,
        S3ErrorCode::InvalidEncryptionAlgorithmError => "InvalidEncryptionAlgorithmError"@,
        S3ErrorCode::InvalidLocationConstraint => "InvalidLocationConstraint"@,
        S3ErrorCode::InvalidObjectState => "InvalidObjectState"@,
        S3ErrorCode::InvalidPart => "InvalidPart"@,
        S3ErrorCode::InvalidPartOrder => "InvalidPartOrder"@,
        S3ErrorCode::InvalidPayer => "InvalidPayer"@,
        S3ErrorCode::InvalidPolicyDocument => "InvalidPolicyDocument"@,
        S3ErrorCode::InvalidRange => "InvalidRange"@,
        S3ErrorCode::InvalidRequest => "InvalidRequest"@,
        S3ErrorCode::InvalidSecurity => "InvalidSecurity"@,
        S3ErrorCode::InvalidSOAPRequest => "InvalidSOAPRequest"@,
        S3ErrorCode::InvalidStorageClass => "InvalidStorageClass"@,
        S3ErrorCode::InvalidTargetBucketForLogging => "InvalidTargetBucketForLogging"@,
        S3ErrorCode::InvalidToken => "InvalidToken"@,
        S3ErrorCode::InvalidURI => "InvalidURI"@,
        S3ErrorCode::KeyTooLongError => "KeyTooLongError"@,
        S3ErrorCode::MalformedACLError => "MalformedACLError"@,
        S3ErrorCode::MalformedPOSTRequest => "MalformedPOSTRequest"@,
        S3ErrorCode::MalformedXML => "MalformedXML"@,
        S3ErrorCode::MaxMessageLengthExceeded => "MaxMessageLengthExceeded"@,
        S3ErrorCode::MaxPostPreDataLengthExceededError => "MaxPostPreDataLengthExceededError"@,
        S3ErrorCode::MetadataTooLarge => "MetadataTooLarge"@,
        S3ErrorCode::MethodNotAllowed => "MethodNotAllowed"@,
        S3ErrorCode::MissingAttachment => "MissingAttachment"@,
        S3ErrorCode::MissingContentLength => "MissingContentLength"@,
        S3ErrorCode::MissingRequestBodyError => "MissingRequestBodyError"@,
        S3ErrorCode::MissingSecurityElement => "MissingSecurityElement"@,
        S3ErrorCode::MissingSecurityHeader => "MissingSecurityHeader"@,
        S3ErrorCode::NoLoggingStatusForKey => "NoLoggingStatusForKey"@,
        S3ErrorCode::NoSuchBucket => "NoSuchBucket"@,
        S3ErrorCode::NoSuchBucketPolicy => "NoSuchBucketPolicy"@,
        S3ErrorCode::NoSuchKey => "NoSuchKey"@,
        S3ErrorCode::NoSuchLifecycleConfiguration => "NoSuchLifecycleConfiguration"@,
        S3ErrorCode::NoSuchUpload => "NoSuchUpload"@,
        S3ErrorCode::NoSuchVersion => "NoSuchVersion"@,
        S3ErrorCode::NotImplemented => "NotImplemented"@,
        S3ErrorCode::NotSignedUp => "NotSignedUp"@,
        S3ErrorCode::NotSupported => "NotSupported"@,
        S3ErrorCode::ObjectNotInActiveTierError => "ObjectNotInActiveTierError"@,
        S3ErrorCode::OperationAborted => "OperationAborted"@,
        S3ErrorCode::PermanentRedirect => "PermanentRedirect"@,
        S3ErrorCode::PreconditionFailed => "PreconditionFailed"@,
        S3ErrorCode::Redirect => "Redirect"@,
        S3ErrorCode::RestoreAlreadyInProgress => "RestoreAlreadyInProgress"@,
        S3ErrorCode::RequestIsNotMultiPartContent => "RequestIsNotMultiPartContent"@,
        S3ErrorCode::RequestTimeout => "RequestTimeout"@,
        S3ErrorCode::RequestTimeTooSkewed => "RequestTimeTooSkewed"@,
        S3ErrorCode::RequestTorrentOfBucketError => "RequestTorrentOfBucketError"@,
        S3ErrorCode::ServerSideEncryptionConfigurationNotFoundError => "ServerSideEncryptionConfigurationNotFoundError"@,
        S3ErrorCode::ServiceUnavailable => "ServiceUnavailable"@,
        S3ErrorCode::SignatureDoesNotMatch => "SignatureDoesNotMatch"@,
        S3ErrorCode::SlowDown => "SlowDown"@,
        S3ErrorCode::TemporaryRedirect => "TemporaryRedirect"@,
        S3ErrorCode::TokenRefreshRequired => "TokenRefreshRequired"@,
        S3ErrorCode::TooManyBuckets => "TooManyBuckets"@,
        S3ErrorCode::UnexpectedContent => "UnexpectedContent"@,
        S3ErrorCode::UnresolvableGrantByEmailAddress => "UnresolvableGrantByEmailAddress"@,
        S3ErrorCode::UserKeyMustBeSpecified => "UserKeyMustBeSpecified"@,
        S3ErrorCode::XAmzContentSHA256Mismatch => "XAmzContentSHA256Mismatch"@,
    }
}
/// the HTTP statuses S3 documents for an error code (500 where it documents none)
pub open spec fn code_status(c: S3ErrorCode, st: int) -> bool {
    match c {
        S3ErrorCode::AccessDenied => st == 403,
        S3ErrorCode::AccountProblem => st == 403,
        S3ErrorCode::AllAccessDisabled => st == 403,
        S3ErrorCode::AmbiguousGrantByEmailAddress => st == 400,
        S3ErrorCode::AuthorizationHeaderMalformed => st == 400,
        S3ErrorCode::BadDigest => st == 400,
        S3ErrorCode::BucketAlreadyExists => st == 409,
        S3ErrorCode::BucketAlreadyOwnedByYou => st == 409,
        S3ErrorCode::BucketNotEmpty => st == 409,
        S3ErrorCode::CredentialsNotSupported => st == 400,
        S3ErrorCode::CrossLocationLoggingProhibited => st == 403,
        S3ErrorCode::EntityTooSmall => st == 400,
        S3ErrorCode::EntityTooLarge => st == 400,
        S3ErrorCode::ExpiredToken => st == 400,
        S3ErrorCode::IllegalLocationConstraintException => st == 400,
        S3ErrorCode::IllegalVersioningConfigurationException => st == 400,
        S3ErrorCode::IncompleteBody => st == 400,
        S3ErrorCode::IncorrectNumberOfFilesInPostRequest => st == 400,
        S3ErrorCode::InlineDataTooLarge => st == 400,
        S3ErrorCode::InternalError => st == 500,
        S3ErrorCode::InvalidAccessKeyId => st == 403,
        S3ErrorCode::InvalidAddressingHeader => st == 500,
        S3ErrorCode::InvalidArgument => st == 400,
        S3ErrorCode::InvalidBucketName => st == 400,
        S3ErrorCode::InvalidBucketState => st == 409,
        S3ErrorCode::InvalidDigest => st == 400,
        S3ErrorCode::InvalidEncryptionAlgorithmError => st == 400,
        S3ErrorCode::InvalidLocationConstraint => st == 400,
        S3ErrorCode::InvalidObjectState => st == 403,
        S3ErrorCode::InvalidPart => st == 400,
        S3ErrorCode::InvalidPartOrder => st == 400,
        S3ErrorCode::InvalidPayer => st == 403,
        S3ErrorCode::InvalidPolicyDocument => st == 400,
        S3ErrorCode::InvalidRange => st == 416,
        S3ErrorCode::InvalidRequest => st == 400,
        S3ErrorCode::InvalidSecurity => st == 403,
        S3ErrorCode::InvalidSOAPRequest => st == 400,
        S3ErrorCode::InvalidStorageClass => st == 400,
        S3ErrorCode::InvalidTargetBucketForLogging => st == 400,
        S3ErrorCode::InvalidToken => st == 400,
        S3ErrorCode::InvalidURI => st == 400,
        S3ErrorCode::KeyTooLongError => st == 400,
        S3ErrorCode::MalformedACLError => st == 400,
        S3ErrorCode::MalformedPOSTRequest => st == 400,
        S3ErrorCode::MalformedXML => st == 400,
        S3ErrorCode::MaxMessageLengthExceeded => st == 400,
        S3ErrorCode::MaxPostPreDataLengthExceededError => st == 400,
        S3ErrorCode::MetadataTooLarge => st == 400,
        S3ErrorCode::MethodNotAllowed => st == 405,
        S3ErrorCode::MissingAttachment => st == 500,
        S3ErrorCode::MissingContentLength => st == 411,
        S3ErrorCode::MissingRequestBodyError => st == 400,
        S3ErrorCode::MissingSecurityElement => st == 400,
        S3ErrorCode::MissingSecurityHeader => st == 400,
        S3ErrorCode::NoLoggingStatusForKey => st == 400,
        S3ErrorCode::NoSuchBucket => st == 404,
        S3ErrorCode::NoSuchBucketPolicy => st == 404,
        S3ErrorCode::NoSuchKey => st == 404,
        S3ErrorCode::NoSuchLifecycleConfiguration => st == 404,
        S3ErrorCode::NoSuchUpload => st == 404,
        S3ErrorCode::NoSuchVersion => st == 404,
        S3ErrorCode::NotImplemented => st == 501,
        S3ErrorCode::NotSignedUp => st == 403,
        S3ErrorCode::NotSupported => st == 500,
        S3ErrorCode::ObjectNotInActiveTierError => st == 200 || st == 403,
        S3ErrorCode::OperationAborted => st == 409,
        S3ErrorCode::PermanentRedirect => st == 301,
        S3ErrorCode::PreconditionFailed => st == 412,
        S3ErrorCode::Redirect => st == 307,
        S3ErrorCode::RestoreAlreadyInProgress => st == 409,
        S3ErrorCode::RequestIsNotMultiPartContent => st == 400,
        S3ErrorCode::RequestTimeout => st == 400,
        S3ErrorCode::RequestTimeTooSkewed => st == 403,
        S3ErrorCode::RequestTorrentOfBucketError => st == 400,
        S3ErrorCode::ServerSideEncryptionConfigurationNotFoundError => st == 400,
        S3ErrorCode::ServiceUnavailable => st == 503,
        S3ErrorCode::SignatureDoesNotMatch => st == 403,
        S3ErrorCode::SlowDown => st == 503,
        S3ErrorCode::TemporaryRedirect => st == 307,
        S3ErrorCode::TokenRefreshRequired => st == 400,
        S3ErrorCode::TooManyBuckets => st == 400,
        S3ErrorCode::UnexpectedContent => st == 400,
        S3ErrorCode::UnresolvableGrantByEmailAddress => st == 400,
        S3ErrorCode::UserKeyMustBeSpecified => st == 400,
        S3ErrorCode::XAmzContentSHA256Mismatch => st == 400,
    }
}
