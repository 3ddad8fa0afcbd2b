//@ # P06: the calendar arithmetic of HTTP dates.
//@ include date_common.inc
// days before the k-th month counted from March
pub open spec fn march_days(k: int) -> int {
    if k <= 0 { 0 } else if k == 1 { 31 } else if k == 2 { 61 } else if k == 3 { 92 } else if k == 4 { 122 } else if k == 5 { 153 } else if k == 6 { 184 }
    else if k == 7 { 214 } else if k == 8 { 245 } else if k == 9 { 275 } else if k == 10 { 306 } else if k == 11 { 337 } else { 366 }
}
proof fn lemma_march_year(days: int, qc: int, c: int, q: int, ry: int, yd: int)
    requires
        -1 <= qc <= 19, 0 <= c <= 3, 0 <= q <= 24, 0 <= ry <= 3, 0 <= yd <= 365,
        days == 146097 * qc + 36524 * c + 1461 * q + 365 * ry + yd,
        yd == 365 ==> ry == 3 && (q < 24 || c == 3),
    ensures
        yd == 365 ==> leap(2001 + ry + 4 * q + 100 * c + 400 * qc),
        ({
            let y0 = 2000 + ry + 4 * q + 100 * c + 400 * qc;
            // 1 March of y0 is day days - yd + 11017 after the epoch
            year_start(y0) + 59 + (if leap(y0) { 1int } else { 0 }) == days - yd + 11017
        }),
{}
proof fn lemma_march_date(days: int, y0: int, yd: int, k: int, rd: int)
    requires
        -11017 <= days < 2932897 - 11017,
        1969 <= y0 <= 9999, 0 <= yd <= 365, yd == 365 ==> leap(y0 + 1),
        year_start(y0) + 59 + (if leap(y0) { 1int } else { 0 }) == days - yd + 11017,
        1 <= k <= 12, rd == yd - march_days(k - 1), 0 <= rd < march_days(k) - march_days(k - 1),
    ensures
        ({
            let y = if k > 10 { y0 + 1 } else { y0 };
            let m = if k > 10 { k - 10 } else { k + 2 };
            &&& day_number(y, m, rd + 1) == days + 11017
            &&& 1 <= m <= 12 && 1 <= rd + 1 <= month_len(y, m) && 1970 <= y <= 9999
        }),
{
    assert(year_start(9999) + 365 == 2932897);
    assert(year_start(y0 + 1) == year_start(y0) + (if leap(y0) { 366int } else { 365 }));
}
proof fn lemma_clock(s: int)
    requires 0 <= s
    ensures ({ let d = s % 86400; s == (s / 86400) * 86400 + (d / 3600) * 3600 + ((d % 3600) / 60) * 60 + d % 60 && 0 <= d % 60 < 60 && 0 <= (d % 3600) / 60 < 60 && 0 <= d / 3600 < 24 })
{}
proof fn lemma_week(days: int)
    requires -11017 <= days
    ensures ({ let w = if 3 + days >= 0 { (3 + days) % 7 } else { -((-(3 + days)) % 7) }; let v = if w <= 0 { w + 7 } else { w }; 1 <= v <= 7 && v - 1 == (days + 11020) % 7 })
{}
//@ fn src/utils/date.rs is_leap_year
//@ ret r
ensures r == leap(year as int),
//@ end
//@ fn src/utils/date.rs days_in_month
//@ ret r
ensures r == month_len(year as int, month as int),
//@ end
//@ fn src/utils/date.rs HttpDate::is_valid
//@ ret r
ensures r == self.valid(),
//@ end
impl HttpDate {
//@ fn src/utils/date.rs <SystemTime as From<HttpDate>>::from
//@ bare
//@ rename into_time
//@ rewrite "-> Self" => "-> (r: SystemTime)"
requires http_date.valid(),
ensures secs(r) == http_date.instant(),
//@ at tail
proof {
    let y = http_date.year as int;
    assert(leap_years as int == (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 - 477);
    assert(days as int == day_number(y, http_date.month as int, http_date.day as int));
}
//@ end
//@ fn src/utils/date.rs <HttpDate as From<SystemTime>>::from
//@ bare
//@ ret r
//@ rename from_time
requires 0 <= secs(system_time) < 253402300800,
ensures r.valid(), r.instant() == secs(system_time), r.weekday_fits(),
//@ at start
hide(leap); hide(year_start); hide(before_month); hide(month_len); hide(day_number);
//@ at stmt 12
proof {
    assert(-11017 <= days <= 2921879);
    assert(days == 146097 * qc_cycles + remdays && 0 <= remdays < 146097);
    assert(-1 <= qc_cycles <= 19);
}
//@ at stmt 15
proof { assert(0 <= c_cycles <= 3 && days == 146097 * qc_cycles + 36524 * c_cycles + remdays && 0 <= remdays <= 36524 && (remdays == 36524 ==> c_cycles == 3)); }
//@ at stmt 18
proof { assert(0 <= q_cycles <= 24 && days == 146097 * qc_cycles + 36524 * c_cycles + 1461 * q_cycles + remdays && 0 <= remdays <= 1460 && (remdays == 1460 ==> (q_cycles < 24 || c_cycles == 3))); }
//@ at stmt 21
proof { assert(0 <= remyears <= 3 && days == 146097 * qc_cycles + 36524 * c_cycles + 1461 * q_cycles + 365 * remyears + remdays && 0 <= remdays <= 365 && (remdays == 365 ==> remyears == 3 && (q_cycles < 24 || c_cycles == 3))); }
let ghost yd = remdays as int;
//@ loop 0 it=iter
    invariant_except_break
        month == iter.index@, remdays == yd - march_days(iter.index@), 0 <= remdays,
    invariant
        months@ == seq![31i64, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31, 29], 0 <= yd <= 365,
    ensures
        1 <= month <= 12, remdays == yd - march_days(month - 1), 0 <= remdays < march_days(month as int) - march_days(month - 1),
//@ at stmt 25
let ghost m0 = month as int;
let ghost y00 = year as int;
//@ at tail
proof {
    let y0 = y00;
    lemma_march_year(days as int, qc_cycles as int, c_cycles as int, q_cycles as int, remyears as int, yd);
    lemma_march_date(days as int, y0, yd, m0, remdays as int);
    lemma_clock(secs_since_epoch as int);
    lemma_week(days as int);
    assert(secs_of_day as int == secs_since_epoch as int % 86400);
    assert(days as int + 11017 == secs_since_epoch as int / 86400);
}
//@ end
//@ fn src/utils/date.rs <HttpDate as PartialEq>::eq
//@ bare
//@ rename eq_date
//@ ret r
requires self.valid(), other.valid(),
ensures r == (self.instant() == other.instant()), r <==> same_time(*self, *other),
//@ rewrite "SystemTime::from(*self) == SystemTime::from(*other)" => "SystemTime::vx_eq(&HttpDate::into_time(*self), &HttpDate::into_time(*other))"
//@ at start
proof { lemma_one_to_one(*self, *other); }
//@ end
//@ fn src/utils/date.rs <HttpDate as PartialOrd>::partial_cmp
//@ bare
//@ rename cmp_date
//@ ret r
requires self.valid(), other.valid(),
ensures r == Some(if self.instant() < other.instant() { std::cmp::Ordering::Less } else if self.instant() == other.instant() { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater }),
//@ rewrite "SystemTime::from(*self).partial_cmp(&SystemTime::from(*other))" => "HttpDate::into_time(*self).vx_cmp(&HttpDate::into_time(*other))"
//@ end
}
// TRUSTED: std compares SystemTimes as instants; every date here is a whole second.
impl SystemTime {
    #[verifier::external_body]
    pub fn vx_eq(&self, o: &SystemTime) -> (r: bool) ensures r == (secs(*self) == secs(*o)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_cmp(&self, o: &SystemTime) -> (r: Option<std::cmp::Ordering>)
        ensures r == Some(if secs(*self) < secs(*o) { std::cmp::Ordering::Less } else if secs(*self) == secs(*o) { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater })
    { unimplemented!() }
}
pub open spec fn same_time(a: HttpDate, b: HttpDate) -> bool {
    a.year == b.year && a.month == b.month && a.day == b.day && a.hour == b.hour && a.minute == b.minute && a.second == b.second
}
proof fn lemma_year_start(y: int, z: int)
    requires 1970 <= y < z <= 9999,
    ensures year_start(z) >= year_start(y) + (if leap(y) { 366int } else { 365 }),
    decreases z - y,
{ assert(year_start(y + 1) == year_start(y) + (if leap(y) { 366int } else { 365 })); if y + 1 < z { lemma_year_start(y + 1, z); } }
// different days have different numbers, different times different instants
proof fn lemma_one_to_one(a: HttpDate, b: HttpDate)
    requires a.valid(), b.valid(),
    ensures a.instant() == b.instant() <==> same_time(a, b),
{
    let (p, q) = (day_number(a.year as int, a.month as int, a.day as int), day_number(b.year as int, b.month as int, b.day as int));
    if p == q {
        if a.year < b.year { lemma_year_start(a.year as int, b.year as int); }
        if b.year < a.year { lemma_year_start(b.year as int, a.year as int); }
        assert(a.year == b.year);
        assert(a.month == b.month && a.day == b.day);
    }
}
}
fn main() {}
