// ---------------------------------------------------------------- trusted: chrono
/// days from 1970-01-01 of the proleptic Gregorian calendar
pub open spec fn day_number(y: int, m: int, d: int) -> int {
    let z = if m <= 2 { y - 1 } else { y };
    365 * z + z / 4 - z / 100 + z / 400 + (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1 - 719468
}
pub open spec fn billion() -> int { 1_000_000_000 }
/// nanoseconds since the epoch of a date and time of day
pub open spec fn instant(y: int, m: int, d: int, hh: int, mm: int, ss: int) -> int { (day_number(y, m, d) * 86400 + hh * 3600 + mm * 60 + ss) * billion() }
/// the clock has shown this time (nanoseconds since the epoch)
pub uninterp spec fn clock(ns: int) -> bool;
/// what an RFC 3339 text means
pub uninterp spec fn rfc3339(s: Seq<char>) -> Option<int>;
#[verifier::external_body]
pub struct NaiveDate { _p: () }
impl NaiveDate {
    pub uninterp spec fn ymd(&self) -> (int, int, int);
    #[verifier::external_body]
    pub fn from_ymd_opt(y: i32, m: u32, d: u32) -> (r: Option<NaiveDate>)
        ensures 0 <= y <= 9999 ==> (match r { Some(x) => calendar_date(y as int, m as int, d as int) && x.ymd() == (y as int, m as int, d as int), None => !calendar_date(y as int, m as int, d as int) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn and_hms_opt(&self, h: u32, m: u32, s: u32) -> (r: Option<NaiveDateTime>)
        ensures match r {
            Some(x) => h < 24 && m < 60 && s < 60 && x.ns() == instant(self.ymd().0, self.ymd().1, self.ymd().2, h as int, m as int, s as int),
            None => !(h < 24 && m < 60 && s < 60),
        }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct NaiveDateTime { _p: () }
#[verifier::external_body]
pub struct Duration { _p: () }
#[verifier::external_body]
pub struct UtcTime { _p: () }
#[verifier::external_body]
pub struct FixedTime { _p: () }
#[verifier::external_body]
pub struct ParseError { _p: () }
pub struct DateTime;
/// seconds, rounded towards zero
pub open spec fn whole_seconds(ns: int) -> int { if ns >= 0 { ns / billion() } else { -((-ns) / billion()) } }
impl NaiveDateTime {
    pub uninterp spec fn ns(&self) -> int;
    #[verifier::external_body]
    pub fn signed_duration_since(&self, o: NaiveDateTime) -> (r: Duration) ensures r.ns() == self.ns() - o.ns() { unimplemented!() }
}
impl Duration {
    pub uninterp spec fn ns(&self) -> int;
    #[verifier::external_body]
    pub fn num_seconds(&self) -> (r: i64) ensures r == whole_seconds(self.ns()) { unimplemented!() }
}
impl Utc {
    #[verifier::external_body]
    pub fn now() -> (r: UtcTime) ensures clock(r.ns()) { unimplemented!() }
}
impl UtcTime {
    pub uninterp spec fn ns(&self) -> int;
    #[verifier::external_body]
    pub fn naive_utc(&self) -> (r: NaiveDateTime) ensures r.ns() == self.ns() { unimplemented!() }
}
impl FixedTime { pub uninterp spec fn ns(&self) -> int; }
impl DateTime {
    #[verifier::external_body]
    pub fn parse_from_rfc3339(s: &str) -> (r: Result<FixedTime, ParseError>)
        ensures match r { Ok(t) => rfc3339(s@) == Some(t.ns()), Err(_) => rfc3339(s@) is None }
    { unimplemented!() }
}
impl PartialEq<FixedTime> for UtcTime {
    #[verifier::external_body]
    fn eq(&self, o: &FixedTime) -> bool { unimplemented!() }
}
impl PartialOrd<FixedTime> for UtcTime {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &FixedTime) -> Option<core::cmp::Ordering> { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<FixedTime> for UtcTime {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &FixedTime) -> bool { self.ns() == o.ns() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl<FixedTime> for UtcTime {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &FixedTime) -> Option<core::cmp::Ordering> {
        if self.ns() < o.ns() { Some(core::cmp::Ordering::Less) } else if self.ns() > o.ns() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) }
    }
}
