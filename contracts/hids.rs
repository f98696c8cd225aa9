// generated by tools/mkops.py; do not edit
pub mod hids {
use super::*;
/// a number that depends on nothing but the name: what tells the names below apart
pub closed spec fn hid(s: Seq<char>) -> int { ((s.len() as int) * 256 + (s[0] as int)) * 256 + (s[s.len() - 2] as int) }
pub open spec fn is_meta(s: Seq<char>) -> bool { s.len() >= 11 && forall|i: int| 0 <= i < 11 ==> #[trigger] s[i] == "x-amz-meta-"@[i] }
proof fn lemma_hid_0() ensures hid("accept-ranges"@) == 876901, !is_meta("accept-ranges"@) { reveal_strlit("accept-ranges"); reveal_strlit("x-amz-meta-"); assert("accept-ranges"@[0] != "x-amz-meta-"@[0]); }
proof fn lemma_hid_1() ensures hid("cache-control"@) == 877423, !is_meta("cache-control"@) { reveal_strlit("cache-control"); reveal_strlit("x-amz-meta-"); assert("cache-control"@[0] != "x-amz-meta-"@[0]); }
proof fn lemma_hid_2() ensures hid("content-disposition"@) == 1270639, !is_meta("content-disposition"@) { reveal_strlit("content-disposition"); reveal_strlit("x-amz-meta-"); assert("content-disposition"@[0] != "x-amz-meta-"@[0]); }
proof fn lemma_hid_3() ensures hid("content-encoding"@) == 1074030, !is_meta("content-encoding"@) { reveal_strlit("content-encoding"); reveal_strlit("x-amz-meta-"); assert("content-encoding"@[0] != "x-amz-meta-"@[0]); }
proof fn lemma_hid_4() ensures hid("content-language"@) == 1074023, !is_meta("content-language"@) { reveal_strlit("content-language"); reveal_strlit("x-amz-meta-"); assert("content-language"@[0] != "x-amz-meta-"@[0]); }
proof fn lemma_hid_5() ensures hid("content-length"@) == 942964, !is_meta("content-length"@) { reveal_strlit("content-length"); reveal_strlit("x-amz-meta-"); assert("content-length"@[0] != "x-amz-meta-"@[0]); }
proof fn lemma_hid_6() ensures hid("content-range"@) == 877415, !is_meta("content-range"@) { reveal_strlit("content-range"); reveal_strlit("x-amz-meta-"); assert("content-range"@[0] != "x-amz-meta-"@[0]); }
proof fn lemma_hid_7() ensures hid("content-type"@) == 811888, !is_meta("content-type"@) { reveal_strlit("content-type"); reveal_strlit("x-amz-meta-"); assert("content-type"@[0] != "x-amz-meta-"@[0]); }
proof fn lemma_hid_8() ensures hid("etag"@) == 288097, !is_meta("etag"@) { reveal_strlit("etag"); reveal_strlit("x-amz-meta-"); }
proof fn lemma_hid_9() ensures hid("expires"@) == 484709, !is_meta("expires"@) { reveal_strlit("expires"); reveal_strlit("x-amz-meta-"); }
proof fn lemma_hid_10() ensures hid("last-modified"@) == 879717, !is_meta("last-modified"@) { reveal_strlit("last-modified"); reveal_strlit("x-amz-meta-"); assert("last-modified"@[0] != "x-amz-meta-"@[0]); }
proof fn lemma_hid_11() ensures hid("location"@) == 552047, !is_meta("location"@) { reveal_strlit("location"); reveal_strlit("x-amz-meta-"); }
proof fn lemma_hid_12() ensures hid("x-amz-abort-date"@) == 1079412, !is_meta("x-amz-abort-date"@) { reveal_strlit("x-amz-abort-date"); reveal_strlit("x-amz-meta-"); assert("x-amz-abort-date"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_13() ensures hid("x-amz-abort-rule-id"@) == 1276009, !is_meta("x-amz-abort-rule-id"@) { reveal_strlit("x-amz-abort-rule-id"); reveal_strlit("x-amz-meta-"); assert("x-amz-abort-rule-id"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_14() ensures hid("x-amz-copy-source-version-id"@) == 1865833, !is_meta("x-amz-copy-source-version-id"@) { reveal_strlit("x-amz-copy-source-version-id"); reveal_strlit("x-amz-meta-"); assert("x-amz-copy-source-version-id"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_15() ensures hid("x-amz-delete-marker"@) == 1276005, !is_meta("x-amz-delete-marker"@) { reveal_strlit("x-amz-delete-marker"); reveal_strlit("x-amz-meta-"); assert("x-amz-delete-marker"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_16() ensures hid("x-amz-expiration"@) == 1079407, !is_meta("x-amz-expiration"@) { reveal_strlit("x-amz-expiration"); reveal_strlit("x-amz-meta-"); assert("x-amz-expiration"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_17() ensures hid("x-amz-missing-meta"@) == 1210484, !is_meta("x-amz-missing-meta"@) { reveal_strlit("x-amz-missing-meta"); reveal_strlit("x-amz-meta-"); assert("x-amz-missing-meta"@[7] != "x-amz-meta-"@[7]); }
proof fn lemma_hid_18() ensures hid("x-amz-mp-parts-count"@) == 1341550, !is_meta("x-amz-mp-parts-count"@) { reveal_strlit("x-amz-mp-parts-count"); reveal_strlit("x-amz-meta-"); assert("x-amz-mp-parts-count"@[7] != "x-amz-meta-"@[7]); }
proof fn lemma_hid_19() ensures hid("x-amz-object-lock-legal-hold"@) == 1865836, !is_meta("x-amz-object-lock-legal-hold"@) { reveal_strlit("x-amz-object-lock-legal-hold"); reveal_strlit("x-amz-meta-"); assert("x-amz-object-lock-legal-hold"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_20() ensures hid("x-amz-object-lock-mode"@) == 1472612, !is_meta("x-amz-object-lock-mode"@) { reveal_strlit("x-amz-object-lock-mode"); reveal_strlit("x-amz-meta-"); assert("x-amz-object-lock-mode"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_21() ensures hid("x-amz-object-lock-retain-until-date"@) == 2324596, !is_meta("x-amz-object-lock-retain-until-date"@) { reveal_strlit("x-amz-object-lock-retain-until-date"); reveal_strlit("x-amz-meta-"); assert("x-amz-object-lock-retain-until-date"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_22() ensures hid("x-amz-replication-status"@) == 1603701, !is_meta("x-amz-replication-status"@) { reveal_strlit("x-amz-replication-status"); reveal_strlit("x-amz-meta-"); assert("x-amz-replication-status"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_23() ensures hid("x-amz-request-charged"@) == 1407077, !is_meta("x-amz-request-charged"@) { reveal_strlit("x-amz-request-charged"); reveal_strlit("x-amz-meta-"); assert("x-amz-request-charged"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_24() ensures hid("x-amz-restore"@) == 882802, !is_meta("x-amz-restore"@) { reveal_strlit("x-amz-restore"); reveal_strlit("x-amz-meta-"); assert("x-amz-restore"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_25() ensures hid("x-amz-server-side-encryption"@) == 1865839, !is_meta("x-amz-server-side-encryption"@) { reveal_strlit("x-amz-server-side-encryption"); reveal_strlit("x-amz-meta-"); assert("x-amz-server-side-encryption"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_26() ensures hid("x-amz-server-side-encryption-aws-kms-key-id"@) == 2848873, !is_meta("x-amz-server-side-encryption-aws-kms-key-id"@) { reveal_strlit("x-amz-server-side-encryption-aws-kms-key-id"); reveal_strlit("x-amz-meta-"); assert("x-amz-server-side-encryption-aws-kms-key-id"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_27() ensures hid("x-amz-server-side-encryption-context"@) == 2390136, !is_meta("x-amz-server-side-encryption-context"@) { reveal_strlit("x-amz-server-side-encryption-context"); reveal_strlit("x-amz-meta-"); assert("x-amz-server-side-encryption-context"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_28() ensures hid("x-amz-server-side-encryption-customer-algorithm"@) == 3111016, !is_meta("x-amz-server-side-encryption-customer-algorithm"@) { reveal_strlit("x-amz-server-side-encryption-customer-algorithm"); reveal_strlit("x-amz-meta-"); assert("x-amz-server-side-encryption-customer-algorithm"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_29() ensures hid("x-amz-server-side-encryption-customer-key-md5"@) == 2979940, !is_meta("x-amz-server-side-encryption-customer-key-md5"@) { reveal_strlit("x-amz-server-side-encryption-customer-key-md5"); reveal_strlit("x-amz-meta-"); assert("x-amz-server-side-encryption-customer-key-md5"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_30() ensures hid("x-amz-storage-class"@) == 1276019, !is_meta("x-amz-storage-class"@) { reveal_strlit("x-amz-storage-class"); reveal_strlit("x-amz-meta-"); assert("x-amz-storage-class"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_31() ensures hid("x-amz-tagging-count"@) == 1276014, !is_meta("x-amz-tagging-count"@) { reveal_strlit("x-amz-tagging-count"); reveal_strlit("x-amz-meta-"); assert("x-amz-tagging-count"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_32() ensures hid("x-amz-version-id"@) == 1079401, !is_meta("x-amz-version-id"@) { reveal_strlit("x-amz-version-id"); reveal_strlit("x-amz-meta-"); assert("x-amz-version-id"@[6] != "x-amz-meta-"@[6]); }
proof fn lemma_hid_33() ensures hid("x-amz-website-redirect-location"@) == 2062447, !is_meta("x-amz-website-redirect-location"@) { reveal_strlit("x-amz-website-redirect-location"); reveal_strlit("x-amz-meta-"); assert("x-amz-website-redirect-location"@[6] != "x-amz-meta-"@[6]); }
/// the header names of the responses are different
pub proof fn lemma_hids()
    ensures
        hid("accept-ranges"@) == 876901, !is_meta("accept-ranges"@),
        hid("cache-control"@) == 877423, !is_meta("cache-control"@),
        hid("content-disposition"@) == 1270639, !is_meta("content-disposition"@),
        hid("content-encoding"@) == 1074030, !is_meta("content-encoding"@),
        hid("content-language"@) == 1074023, !is_meta("content-language"@),
        hid("content-length"@) == 942964, !is_meta("content-length"@),
        hid("content-range"@) == 877415, !is_meta("content-range"@),
        hid("content-type"@) == 811888, !is_meta("content-type"@),
        hid("etag"@) == 288097, !is_meta("etag"@),
        hid("expires"@) == 484709, !is_meta("expires"@),
        hid("last-modified"@) == 879717, !is_meta("last-modified"@),
        hid("location"@) == 552047, !is_meta("location"@),
        hid("x-amz-abort-date"@) == 1079412, !is_meta("x-amz-abort-date"@),
        hid("x-amz-abort-rule-id"@) == 1276009, !is_meta("x-amz-abort-rule-id"@),
        hid("x-amz-copy-source-version-id"@) == 1865833, !is_meta("x-amz-copy-source-version-id"@),
        hid("x-amz-delete-marker"@) == 1276005, !is_meta("x-amz-delete-marker"@),
        hid("x-amz-expiration"@) == 1079407, !is_meta("x-amz-expiration"@),
        hid("x-amz-missing-meta"@) == 1210484, !is_meta("x-amz-missing-meta"@),
        hid("x-amz-mp-parts-count"@) == 1341550, !is_meta("x-amz-mp-parts-count"@),
        hid("x-amz-object-lock-legal-hold"@) == 1865836, !is_meta("x-amz-object-lock-legal-hold"@),
        hid("x-amz-object-lock-mode"@) == 1472612, !is_meta("x-amz-object-lock-mode"@),
        hid("x-amz-object-lock-retain-until-date"@) == 2324596, !is_meta("x-amz-object-lock-retain-until-date"@),
        hid("x-amz-replication-status"@) == 1603701, !is_meta("x-amz-replication-status"@),
        hid("x-amz-request-charged"@) == 1407077, !is_meta("x-amz-request-charged"@),
        hid("x-amz-restore"@) == 882802, !is_meta("x-amz-restore"@),
        hid("x-amz-server-side-encryption"@) == 1865839, !is_meta("x-amz-server-side-encryption"@),
        hid("x-amz-server-side-encryption-aws-kms-key-id"@) == 2848873, !is_meta("x-amz-server-side-encryption-aws-kms-key-id"@),
        hid("x-amz-server-side-encryption-context"@) == 2390136, !is_meta("x-amz-server-side-encryption-context"@),
        hid("x-amz-server-side-encryption-customer-algorithm"@) == 3111016, !is_meta("x-amz-server-side-encryption-customer-algorithm"@),
        hid("x-amz-server-side-encryption-customer-key-md5"@) == 2979940, !is_meta("x-amz-server-side-encryption-customer-key-md5"@),
        hid("x-amz-storage-class"@) == 1276019, !is_meta("x-amz-storage-class"@),
        hid("x-amz-tagging-count"@) == 1276014, !is_meta("x-amz-tagging-count"@),
        hid("x-amz-version-id"@) == 1079401, !is_meta("x-amz-version-id"@),
        hid("x-amz-website-redirect-location"@) == 2062447, !is_meta("x-amz-website-redirect-location"@),
{ lemma_hid_0(); lemma_hid_1(); lemma_hid_2(); lemma_hid_3(); lemma_hid_4(); lemma_hid_5(); lemma_hid_6(); lemma_hid_7(); lemma_hid_8(); lemma_hid_9(); lemma_hid_10(); lemma_hid_11(); lemma_hid_12(); lemma_hid_13(); lemma_hid_14(); lemma_hid_15(); lemma_hid_16(); lemma_hid_17(); lemma_hid_18(); lemma_hid_19(); lemma_hid_20(); lemma_hid_21(); lemma_hid_22(); lemma_hid_23(); lemma_hid_24(); lemma_hid_25(); lemma_hid_26(); lemma_hid_27(); lemma_hid_28(); lemma_hid_29(); lemma_hid_30(); lemma_hid_31(); lemma_hid_32(); lemma_hid_33(); }
}
pub use hids::{is_meta, hid, lemma_hids};
/// the values of the header fields the operations set
pub struct HR {
    pub accept_ranges: Option<Seq<u8>>,
    pub cache_control: Option<Seq<u8>>,
    pub content_disposition: Option<Seq<u8>>,
    pub content_encoding: Option<Seq<u8>>,
    pub content_language: Option<Seq<u8>>,
    pub content_length: Option<Seq<u8>>,
    pub content_range: Option<Seq<u8>>,
    pub content_type: Option<Seq<u8>>,
    pub etag: Option<Seq<u8>>,
    pub expires: Option<Seq<u8>>,
    pub last_modified: Option<Seq<u8>>,
    pub location: Option<Seq<u8>>,
    pub x_amz_abort_date: Option<Seq<u8>>,
    pub x_amz_abort_rule_id: Option<Seq<u8>>,
    pub x_amz_copy_source_version_id: Option<Seq<u8>>,
    pub x_amz_delete_marker: Option<Seq<u8>>,
    pub x_amz_expiration: Option<Seq<u8>>,
    pub x_amz_missing_meta: Option<Seq<u8>>,
    pub x_amz_mp_parts_count: Option<Seq<u8>>,
    pub x_amz_object_lock_legal_hold: Option<Seq<u8>>,
    pub x_amz_object_lock_mode: Option<Seq<u8>>,
    pub x_amz_object_lock_retain_until_date: Option<Seq<u8>>,
    pub x_amz_replication_status: Option<Seq<u8>>,
    pub x_amz_request_charged: Option<Seq<u8>>,
    pub x_amz_restore: Option<Seq<u8>>,
    pub x_amz_server_side_encryption: Option<Seq<u8>>,
    pub x_amz_server_side_encryption_aws_kms_key_id: Option<Seq<u8>>,
    pub x_amz_server_side_encryption_context: Option<Seq<u8>>,
    pub x_amz_server_side_encryption_customer_algorithm: Option<Seq<u8>>,
    pub x_amz_server_side_encryption_customer_key_md5: Option<Seq<u8>>,
    pub x_amz_storage_class: Option<Seq<u8>>,
    pub x_amz_tagging_count: Option<Seq<u8>>,
    pub x_amz_version_id: Option<Seq<u8>>,
    pub x_amz_website_redirect_location: Option<Seq<u8>>,
    /// no other header field but metadata
    pub clean: bool,
}
pub mod hrl {
    use super::*;
    pub open spec fn hrec(m: Map<Seq<char>, Seq<u8>>) -> HR {
        HR {
            accept_ranges: hv(m, "accept-ranges"@),
            cache_control: hv(m, "cache-control"@),
            content_disposition: hv(m, "content-disposition"@),
            content_encoding: hv(m, "content-encoding"@),
            content_language: hv(m, "content-language"@),
            content_length: hv(m, "content-length"@),
            content_range: hv(m, "content-range"@),
            content_type: hv(m, "content-type"@),
            etag: hv(m, "etag"@),
            expires: hv(m, "expires"@),
            last_modified: hv(m, "last-modified"@),
            location: hv(m, "location"@),
            x_amz_abort_date: hv(m, "x-amz-abort-date"@),
            x_amz_abort_rule_id: hv(m, "x-amz-abort-rule-id"@),
            x_amz_copy_source_version_id: hv(m, "x-amz-copy-source-version-id"@),
            x_amz_delete_marker: hv(m, "x-amz-delete-marker"@),
            x_amz_expiration: hv(m, "x-amz-expiration"@),
            x_amz_missing_meta: hv(m, "x-amz-missing-meta"@),
            x_amz_mp_parts_count: hv(m, "x-amz-mp-parts-count"@),
            x_amz_object_lock_legal_hold: hv(m, "x-amz-object-lock-legal-hold"@),
            x_amz_object_lock_mode: hv(m, "x-amz-object-lock-mode"@),
            x_amz_object_lock_retain_until_date: hv(m, "x-amz-object-lock-retain-until-date"@),
            x_amz_replication_status: hv(m, "x-amz-replication-status"@),
            x_amz_request_charged: hv(m, "x-amz-request-charged"@),
            x_amz_restore: hv(m, "x-amz-restore"@),
            x_amz_server_side_encryption: hv(m, "x-amz-server-side-encryption"@),
            x_amz_server_side_encryption_aws_kms_key_id: hv(m, "x-amz-server-side-encryption-aws-kms-key-id"@),
            x_amz_server_side_encryption_context: hv(m, "x-amz-server-side-encryption-context"@),
            x_amz_server_side_encryption_customer_algorithm: hv(m, "x-amz-server-side-encryption-customer-algorithm"@),
            x_amz_server_side_encryption_customer_key_md5: hv(m, "x-amz-server-side-encryption-customer-key-md5"@),
            x_amz_storage_class: hv(m, "x-amz-storage-class"@),
            x_amz_tagging_count: hv(m, "x-amz-tagging-count"@),
            x_amz_version_id: hv(m, "x-amz-version-id"@),
            x_amz_website_redirect_location: hv(m, "x-amz-website-redirect-location"@),
            clean: clean(m),
        }
    }
    pub open spec fn known_name(h: Seq<char>) -> bool { is_meta(h) || h == "accept-ranges"@ || h == "cache-control"@ || h == "content-disposition"@ || h == "content-encoding"@ || h == "content-language"@ || h == "content-length"@ || h == "content-range"@ || h == "content-type"@ || h == "etag"@ || h == "expires"@ || h == "last-modified"@ || h == "location"@ || h == "x-amz-abort-date"@ || h == "x-amz-abort-rule-id"@ || h == "x-amz-copy-source-version-id"@ || h == "x-amz-delete-marker"@ || h == "x-amz-expiration"@ || h == "x-amz-missing-meta"@ || h == "x-amz-mp-parts-count"@ || h == "x-amz-object-lock-legal-hold"@ || h == "x-amz-object-lock-mode"@ || h == "x-amz-object-lock-retain-until-date"@ || h == "x-amz-replication-status"@ || h == "x-amz-request-charged"@ || h == "x-amz-restore"@ || h == "x-amz-server-side-encryption"@ || h == "x-amz-server-side-encryption-aws-kms-key-id"@ || h == "x-amz-server-side-encryption-context"@ || h == "x-amz-server-side-encryption-customer-algorithm"@ || h == "x-amz-server-side-encryption-customer-key-md5"@ || h == "x-amz-storage-class"@ || h == "x-amz-tagging-count"@ || h == "x-amz-version-id"@ || h == "x-amz-website-redirect-location"@ }
    pub open spec fn clean(m: Map<Seq<char>, Seq<u8>>) -> bool { forall|h: Seq<char>| #[trigger] has(m, h) ==> known_name(h) }
    pub proof fn lemma_clean(m: Map<Seq<char>, Seq<u8>>, n: Seq<char>, v: Option<Seq<char>>)
        requires known_name(n),
        ensures clean(opt_header(m, n, v)) == clean(m),
    {
        if clean(m) { assert forall|h: Seq<char>| #[trigger] has(opt_header(m, n, v), h) implies known_name(h) by { if h != n { assert(has(m, h)); } } }
        if clean(opt_header(m, n, v)) { assert forall|h: Seq<char>| #[trigger] has(m, h) implies known_name(h) by { assert(has(opt_header(m, n, v), h)); } }
    }
    pub proof fn lemma_clean_meta(o: Map<Seq<char>, Seq<u8>>, n: Map<Seq<char>, Seq<u8>>, m: Map<Seq<char>, Seq<char>>)
        requires meta_headers(o, n, m),
        ensures clean(n) == clean(o),
    {
        lemma_hv_meta(o, n, m);
        if clean(o) { assert forall|h: Seq<char>| #[trigger] has(n, h) implies known_name(h) by { if !is_meta(h) { assert(has(o, h)); } } }
        if clean(n) { assert forall|h: Seq<char>| #[trigger] has(o, h) implies known_name(h) by { assert(has(n, h)); } }
    }
    pub broadcast proof fn lemma_hr_accept_ranges(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "accept-ranges"@, v)) == (HR { accept_ranges: hvo(v, hrec(m).accept_ranges), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "accept-ranges"@, v); }
    pub broadcast proof fn lemma_hr_cache_control(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "cache-control"@, v)) == (HR { cache_control: hvo(v, hrec(m).cache_control), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "cache-control"@, v); }
    pub broadcast proof fn lemma_hr_content_disposition(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "content-disposition"@, v)) == (HR { content_disposition: hvo(v, hrec(m).content_disposition), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "content-disposition"@, v); }
    pub broadcast proof fn lemma_hr_content_encoding(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "content-encoding"@, v)) == (HR { content_encoding: hvo(v, hrec(m).content_encoding), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "content-encoding"@, v); }
    pub broadcast proof fn lemma_hr_content_language(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "content-language"@, v)) == (HR { content_language: hvo(v, hrec(m).content_language), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "content-language"@, v); }
    pub broadcast proof fn lemma_hr_content_length(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "content-length"@, v)) == (HR { content_length: hvo(v, hrec(m).content_length), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "content-length"@, v); }
    pub broadcast proof fn lemma_hr_content_range(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "content-range"@, v)) == (HR { content_range: hvo(v, hrec(m).content_range), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "content-range"@, v); }
    pub broadcast proof fn lemma_hr_content_type(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "content-type"@, v)) == (HR { content_type: hvo(v, hrec(m).content_type), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "content-type"@, v); }
    pub broadcast proof fn lemma_hr_etag(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "etag"@, v)) == (HR { etag: hvo(v, hrec(m).etag), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "etag"@, v); }
    pub broadcast proof fn lemma_hr_expires(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "expires"@, v)) == (HR { expires: hvo(v, hrec(m).expires), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "expires"@, v); }
    pub broadcast proof fn lemma_hr_last_modified(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "last-modified"@, v)) == (HR { last_modified: hvo(v, hrec(m).last_modified), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "last-modified"@, v); }
    pub broadcast proof fn lemma_hr_location(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "location"@, v)) == (HR { location: hvo(v, hrec(m).location), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "location"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_abort_date(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-abort-date"@, v)) == (HR { x_amz_abort_date: hvo(v, hrec(m).x_amz_abort_date), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-abort-date"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_abort_rule_id(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-abort-rule-id"@, v)) == (HR { x_amz_abort_rule_id: hvo(v, hrec(m).x_amz_abort_rule_id), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-abort-rule-id"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_copy_source_version_id(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-copy-source-version-id"@, v)) == (HR { x_amz_copy_source_version_id: hvo(v, hrec(m).x_amz_copy_source_version_id), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-copy-source-version-id"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_delete_marker(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-delete-marker"@, v)) == (HR { x_amz_delete_marker: hvo(v, hrec(m).x_amz_delete_marker), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-delete-marker"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_expiration(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-expiration"@, v)) == (HR { x_amz_expiration: hvo(v, hrec(m).x_amz_expiration), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-expiration"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_missing_meta(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-missing-meta"@, v)) == (HR { x_amz_missing_meta: hvo(v, hrec(m).x_amz_missing_meta), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-missing-meta"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_mp_parts_count(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-mp-parts-count"@, v)) == (HR { x_amz_mp_parts_count: hvo(v, hrec(m).x_amz_mp_parts_count), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-mp-parts-count"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_object_lock_legal_hold(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-object-lock-legal-hold"@, v)) == (HR { x_amz_object_lock_legal_hold: hvo(v, hrec(m).x_amz_object_lock_legal_hold), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-object-lock-legal-hold"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_object_lock_mode(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-object-lock-mode"@, v)) == (HR { x_amz_object_lock_mode: hvo(v, hrec(m).x_amz_object_lock_mode), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-object-lock-mode"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_object_lock_retain_until_date(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-object-lock-retain-until-date"@, v)) == (HR { x_amz_object_lock_retain_until_date: hvo(v, hrec(m).x_amz_object_lock_retain_until_date), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-object-lock-retain-until-date"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_replication_status(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-replication-status"@, v)) == (HR { x_amz_replication_status: hvo(v, hrec(m).x_amz_replication_status), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-replication-status"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_request_charged(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-request-charged"@, v)) == (HR { x_amz_request_charged: hvo(v, hrec(m).x_amz_request_charged), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-request-charged"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_restore(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-restore"@, v)) == (HR { x_amz_restore: hvo(v, hrec(m).x_amz_restore), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-restore"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_server_side_encryption(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-server-side-encryption"@, v)) == (HR { x_amz_server_side_encryption: hvo(v, hrec(m).x_amz_server_side_encryption), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-server-side-encryption"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_server_side_encryption_aws_kms_key_id(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-server-side-encryption-aws-kms-key-id"@, v)) == (HR { x_amz_server_side_encryption_aws_kms_key_id: hvo(v, hrec(m).x_amz_server_side_encryption_aws_kms_key_id), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-server-side-encryption-aws-kms-key-id"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_server_side_encryption_context(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-server-side-encryption-context"@, v)) == (HR { x_amz_server_side_encryption_context: hvo(v, hrec(m).x_amz_server_side_encryption_context), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-server-side-encryption-context"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_server_side_encryption_customer_algorithm(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-server-side-encryption-customer-algorithm"@, v)) == (HR { x_amz_server_side_encryption_customer_algorithm: hvo(v, hrec(m).x_amz_server_side_encryption_customer_algorithm), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-server-side-encryption-customer-algorithm"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_server_side_encryption_customer_key_md5(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-server-side-encryption-customer-key-md5"@, v)) == (HR { x_amz_server_side_encryption_customer_key_md5: hvo(v, hrec(m).x_amz_server_side_encryption_customer_key_md5), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-server-side-encryption-customer-key-md5"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_storage_class(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-storage-class"@, v)) == (HR { x_amz_storage_class: hvo(v, hrec(m).x_amz_storage_class), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-storage-class"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_tagging_count(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-tagging-count"@, v)) == (HR { x_amz_tagging_count: hvo(v, hrec(m).x_amz_tagging_count), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-tagging-count"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_version_id(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-version-id"@, v)) == (HR { x_amz_version_id: hvo(v, hrec(m).x_amz_version_id), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-version-id"@, v); }
    pub broadcast proof fn lemma_hr_x_amz_website_redirect_location(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)
        ensures hrec(#[trigger] opt_header(m, "x-amz-website-redirect-location"@, v)) == (HR { x_amz_website_redirect_location: hvo(v, hrec(m).x_amz_website_redirect_location), ..hrec(m) }),
    { hide(clean); lemma_hids(); lemma_clean(m, "x-amz-website-redirect-location"@, v); }
    pub broadcast proof fn lemma_hr_empty()
        ensures #[trigger] hrec(Map::<Seq<char>, Seq<u8>>::empty()) == (HR { accept_ranges: None, cache_control: None, content_disposition: None, content_encoding: None, content_language: None, content_length: None, content_range: None, content_type: None, etag: None, expires: None, last_modified: None, location: None, x_amz_abort_date: None, x_amz_abort_rule_id: None, x_amz_copy_source_version_id: None, x_amz_delete_marker: None, x_amz_expiration: None, x_amz_missing_meta: None, x_amz_mp_parts_count: None, x_amz_object_lock_legal_hold: None, x_amz_object_lock_mode: None, x_amz_object_lock_retain_until_date: None, x_amz_replication_status: None, x_amz_request_charged: None, x_amz_restore: None, x_amz_server_side_encryption: None, x_amz_server_side_encryption_aws_kms_key_id: None, x_amz_server_side_encryption_context: None, x_amz_server_side_encryption_customer_algorithm: None, x_amz_server_side_encryption_customer_key_md5: None, x_amz_storage_class: None, x_amz_tagging_count: None, x_amz_version_id: None, x_amz_website_redirect_location: None, clean: true }),
    {}
    pub broadcast proof fn lemma_hr_meta(o: Map<Seq<char>, Seq<u8>>, n: Map<Seq<char>, Seq<u8>>, m: Map<Seq<char>, Seq<char>>)
        requires #[trigger] meta_headers(o, n, m),
        ensures hrec(n) == hrec(o),
    { lemma_hids(); lemma_hv_meta(o, n, m); lemma_clean_meta(o, n, m); }
}
pub use hrl::hrec;
