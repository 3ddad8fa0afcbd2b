//@ include head.inc
pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r@ == trimmed(s@);
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()),
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub open spec fn ascii_chars(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 }
// TRUSTED: slice equality; the decimal value of a run of digits (parse_number's body is discharged against this contract in unit date_text).
#[verifier::external_body]
pub fn bytes_eq_raw(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool)
    ensures
        r == (a@ == b@),
        a@.len() != b@.len() ==> !r,
        a@.len() == 4 && b@.len() == 4 ==> r == (a@[0] == b@[0] && a@[1] == b@[1] && a@[2] == b@[2] && a@[3] == b@[3]),
        a@.len() == 5 && b@.len() == 5 ==> r == (a@[0] == b@[0] && a@[1] == b@[1] && a@[2] == b@[2] && a@[3] == b@[3] && a@[4] == b@[4]),
{
    let r = bytes_eq_raw(a, b);
    proof {
        if a@.len() == 4 && b@.len() == 4 && a@[0] == b@[0] && a@[1] == b@[1] && a@[2] == b@[2] && a@[3] == b@[3] { assert(a@ =~= b@); }
        if a@.len() == 5 && b@.len() == 5 && a@[0] == b@[0] && a@[1] == b@[1] && a@[2] == b@[2] && a@[3] == b@[3] && a@[4] == b@[4] { assert(a@ =~= b@); }
    }
    r
}
pub open spec fn digit(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn digits(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
pub open spec fn dec(s: Seq<u8>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { dec(s.drop_last()) * 10 + (s.last() - 48) as nat } }
pub trait Number: Sized { spec fn val(&self) -> nat; spec fn max() -> nat; }
impl Number for u8 { open spec fn val(&self) -> nat { *self as nat } open spec fn max() -> nat { 255 } }
impl Number for u16 { open spec fn val(&self) -> nat { *self as nat } open spec fn max() -> nat { 65535 } }
#[verifier::external_body]
pub fn parse_number<T: Number>(s: &[u8]) -> (r: CrateResult<T>)
    ensures
        r is Ok <==> digits(s@) && dec(s@) <= T::max(),
        r matches Ok(v) ==> v.val() == dec(s@),
{ unimplemented!() }
// TRUSTED stand-ins for std's SystemTime and Duration: whole seconds after the epoch.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SystemTime { x: u64 }
pub struct Duration { pub s: u64 }
// TRUSTED stand-ins: a Formatter collects the bytes written to it; ASCII bytes are UTF-8.
pub struct Formatter<'a> { pub out: Ghost<Seq<u8>>, pub x: &'a u8 }
pub struct Utf8Error { pub x: u64 }
impl std::fmt::Debug for Utf8Error { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl<'a> Formatter<'a> {
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), std::fmt::Error>) ensures final(self).out@ == old(self).out@ + utf8(s@) { unimplemented!() }
}
pub mod fmt { pub type Result = std::result::Result<(), std::fmt::Error>; }
#[verifier::external_body]
pub fn from_utf8(b: &[u8]) -> (r: Result<&str, Utf8Error>)
    ensures (forall|i: int| 0 <= i < b@.len() ==> (#[trigger] b@[i]) < 128) ==> r is Ok && utf8(r->Ok_0@) == b@
{ unimplemented!() }
pub struct SystemTimeError { pub x: u64 }
impl std::fmt::Debug for SystemTimeError { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
pub struct Epoch;
pub const UNIX_EPOCH: Epoch = Epoch;
pub uninterp spec fn secs(t: SystemTime) -> int;
impl SystemTime {
    #[verifier::external_body]
    pub fn duration_since(&self, e: Epoch) -> (r: Result<Duration, SystemTimeError>)
        ensures r is Ok <==> secs(*self) >= 0, r matches Ok(d) ==> d.s == secs(*self)
    { unimplemented!() }
}
impl Duration {
    pub fn as_secs(&self) -> (r: u64) ensures r == self.s { self.s }
    pub fn from_secs(s: u64) -> (r: Duration) ensures r.s == s { Duration { s } }
}
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Epoch {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, d: Duration) -> bool { true }
    open spec fn add_spec(self, d: Duration) -> SystemTime { arbitrary() }
}
impl std::ops::Add<Duration> for Epoch {
    type Output = SystemTime;
    #[verifier::external_body]
    fn add(self, d: Duration) -> (r: SystemTime) ensures secs(r) == d.s { unimplemented!() }
}

//@ item src/utils/date.rs const IMF_FIXDATE_LENGTH
//@ item src/utils/date.rs const RFC850_MAX_LENGTH
//@ item src/utils/date.rs const ASCTIME_LENGTH
//@ item src/utils/date.rs const YEAR_9999_SECONDS
//@ item src/utils/date.rs const SECONDS_IN_DAY
//@ item src/utils/date.rs const SECONDS_IN_HOUR
//@ item src/utils/date.rs struct HttpDate #[derive(Clone, Copy)]

// ------------------------------------------------ the calendar, independently of the code
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn month_len(y: int, m: int) -> int {
    if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else if m == 2 { if leap(y) { 29 } else { 28 } } else { 31 }
}
// days from 1970-01-01 to y-01-01
pub open spec fn year_start(y: int) -> int {
    (y - 1970) * 365 + ((y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400) - (1969int / 4 - 1969int / 100 + 1969int / 400)
}
pub open spec fn before_month(m: int) -> int {
    if m == 1 { 0 } else if m == 2 { 31 } else if m == 3 { 59 } else if m == 4 { 90 } else if m == 5 { 120 } else if m == 6 { 151 }
    else if m == 7 { 181 } else if m == 8 { 212 } else if m == 9 { 243 } else if m == 10 { 273 } else if m == 11 { 304 } else { 334 }
}
pub open spec fn day_number(y: int, m: int, d: int) -> int {
    year_start(y) + before_month(m) + (if m > 2 && leap(y) { 1int } else { 0 }) + d - 1
}
// the calendar is right: consecutive days have consecutive numbers
proof fn lemma_next_day(y: int, m: int, d: int)
    requires 1970 <= y <= 9999, 1 <= m <= 12, 1 <= d <= month_len(y, m)
    ensures
        d < month_len(y, m) ==> day_number(y, m, d + 1) == day_number(y, m, d) + 1,
        d == month_len(y, m) && m < 12 ==> day_number(y, m + 1, 1) == day_number(y, m, d) + 1,
        d == month_len(y, m) && m == 12 ==> day_number(y + 1, 1, 1) == day_number(y, m, d) + 1,
        day_number(1970, 1, 1) == 0,
{}
impl HttpDate {
    pub open spec fn valid(&self) -> bool {
        &&& self.second < 60 && self.minute < 60 && self.hour < 24
        &&& 1 <= self.month <= 12 && 1970 <= self.year <= 9999
        &&& 1 <= self.day <= month_len(self.year as int, self.month as int)
        &&& 1 <= self.week_day <= 7
    }
    pub open spec fn instant(&self) -> int {
        day_number(self.year as int, self.month as int, self.day as int) * 86400 + self.hour * 3600 + self.minute * 60 + self.second
    }
    // 1970-01-01 was a Thursday (4)
    pub open spec fn weekday_fits(&self) -> bool {
        self.week_day - 1 == (day_number(self.year as int, self.month as int, self.day as int) + 3) % 7
    }
}

