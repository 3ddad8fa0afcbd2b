//@ # P06: the headers that carry a date.
//@ include hdr.inc
//@ include nums.inc
//@ include duration.inc
// TRUSTED stand-in for std's SystemTime: whole seconds after the epoch.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct SystemTime { x: u64, y: u64 }
pub uninterp spec fn secs(t: SystemTime) -> int;
impl SystemTime {
    #[verifier::external_body]
    pub fn now() -> (r: SystemTime) { unimplemented!() }
    // the clock reads less than 2^62 s
    #[verifier::external_body]
    pub fn checked_add(&self, d: Duration) -> (r: Option<SystemTime>) ensures d.s < 0x4000_0000_0000_0000 ==> r is Some { unimplemented!() }
}
pub struct SystemTimeError { pub x: u64 }
pub uninterp spec fn since(at: SystemTime, earlier: SystemTime, r: Result<Duration, SystemTimeError>) -> bool;
impl SystemTime {
    #[verifier::external_body]
    pub fn duration_since(&self, e: SystemTime) -> (r: Result<Duration, SystemTimeError>) ensures since(*self, e, r) { unimplemented!() }
}
// TRUSTED: the clock plus a delay (a delay the clock cannot hold panics; from_headers refuses it)
#[verifier::external_body]
pub fn now_plus(d: Duration) -> (r: SystemTime) { unimplemented!() }
// TRUSTED (contracts discharged in units date and date_text): dates as text and as seconds after the epoch.
#[derive(Clone, Copy)]
pub struct HttpDate { x: u64 }
pub uninterp spec fn date_of(s: Seq<char>) -> Option<HttpDate>;
pub uninterp spec fn date_text(d: HttpDate) -> Seq<char>;
pub uninterp spec fn day_of(n: int) -> HttpDate;
pub uninterp spec fn date_secs(d: HttpDate) -> int;
pub open spec fn writable(t: SystemTime) -> bool { 0 <= secs(t) < 253402300800 }
pub axiom fn axiom_dates(n: int)
    ensures 0 <= n < 253402300800 ==> {
        let t = date_text(day_of(n));
        t.len() == 29 && tight(t) && ascii_chars(t) && date_of(t) is Some && date_secs(date_of(t)->0) == n && !is_digit(t[0]) && t[0] != '+'
    };
impl Show for HttpDate { open spec fn shown(&self) -> Seq<char> { date_text(*self) } }
impl HttpDate {
    #[verifier::external_body]
    pub fn from(t: SystemTime) -> (r: HttpDate) requires writable(t) ensures r == day_of(secs(t)) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_time(self) -> (r: SystemTime) ensures secs(r) == date_secs(self) { unimplemented!() }
}
#[verifier::external_body]
pub fn date_from_str(s: &str) -> (r: CrateResult<HttpDate>) ensures match date_of(s@) { Some(d) => r == Ok::<HttpDate, Error>(d), None => r is Err } { unimplemented!() }
// the instant a text names
pub open spec fn instant(s: Seq<char>) -> Option<int> { match date_of(s) { Some(d) => Some(date_secs(d)), None => None } }
//@ fn src/utils/date.rs parse_http_date
//@ ret r
ensures match instant(s@) { Some(n) => r is Ok && secs(r->Ok_0) == n, None => r is Err && (r->Err_0).status == StatusCode::BadRequest },
//@ rewrite "s.parse::<HttpDate>()" => "date_from_str(s)"
//@ rewrite "d.into()" => "d.into_time()"
//@ rewrite "e.set_status(StatusCode::BadRequest)" => "set_status_code(&mut e, StatusCode::BadRequest)"
//@ closure 0 types="HttpDate" ret="t: SystemTime"
ensures secs(t) == date_secs(d),
//@ closure 1 types="Error" ret="y: Error"
ensures y.status == StatusCode::BadRequest,
//@ end
//@ fn src/utils/date.rs fmt_http_date
//@ ret r
requires writable(d),
ensures r@ == date_text(day_of(secs(d))),
//@ fmt
//@ at tail
proof { assert(seq![] + date_text(day_of(secs(d))) =~= date_text(day_of(secs(d)))); }
//@ end
//@ include date_header.inc F=src/cache/expires.rs T=Expires NEW=new_at GET=expiration H=expires C=EXPIRES
//@ include date_header.inc F=src/conditional/if_modified_since.rs T=IfModifiedSince NEW=new GET=modified H=if-modified-since C=IF_MODIFIED_SINCE
//@ include date_header.inc F=src/conditional/if_unmodified_since.rs T=IfUnmodifiedSince NEW=new GET=modified H=if-unmodified-since C=IF_UNMODIFIED_SINCE
//@ include date_header.inc F=src/conditional/last_modified.rs T=LastModified NEW=new GET=modified H=last-modified C=LAST_MODIFIED
//@ item src/other/date.rs struct Date
//@ fn src/other/date.rs Date::new
//@ ret r
ensures r.at == at,
//@ end
//@ fn src/other/date.rs Date::now
//@ end
//@ fn src/other/date.rs Date::from_headers
//@ ret r
ensures
    match header_values(headers, "date"@) {
        None => r == Ok::<Option<Date>, Error>(None),
        Some(vs) => match instant(trim(vs.last().inner@)) {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(n) => r is Ok && r->Ok_0 is Some && secs((r->Ok_0->0).at) == n,
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(DATE)" => "header_get(headers, \"date\")"
//@ rewrite "headers.iter().last()" => "vec_last(headers)"
//@ rewrite "value\n            .as_str()\n            .trim()\n            .parse()" => "date_from_str(str_trim(value.as_str()))"
//@ rewrite "|mut e: crate::Error|" => "|mut e|"
//@ rewrite "date.into()" => "date.into_time()"
//@ closure 0 types="Error" ret="y: Error"
ensures y.status == StatusCode::BadRequest,
//@ end
impl Date {
//@ fn src/other/date.rs <Date as Header>::header_value
//@ bare
//@ ret r
requires writable(self.at),
ensures r.inner@ == date_text(day_of(secs(self.at))), instant(trim(r.inner@)) == Some(secs(self.at)),
//@ fmt
//@ rewrite "self.at.into()" => "HttpDate::from(self.at)"
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
proof { axiom_dates(secs(self.at)); lemma_trim_id(date_text(day_of(secs(self.at)))); }
//@ at tail
proof { assert(output@ =~= date_text(day_of(secs(self.at)))); }
//@ end
//@ fn src/other/date.rs <SystemTime as From<Date>>::from
//@ bare
//@ rename date_into_time
//@ rewrite "-> Self" => "-> (r: SystemTime)"
ensures r == date.at,
//@ end
//@ fn src/other/date.rs <Date as From<SystemTime>>::from
//@ bare
//@ ret r
ensures r.at == time,
//@ end
}
pub proof fn lemma_dec_pos(s: Seq<char>)
    requires digits(s),
    ensures dec(s) >= 0,
    decreases s.len(),
{ if s.len() > 0 { lemma_dec_pos(s.drop_last()); assert(is_digit(s[s.len() - 1])); } }
pub proof fn lemma_num_pos(m: int)
    ensures forall|s: Seq<char>| (#[trigger] num(s, m)) is Some ==> num(s, m)->0 >= 0,
{ assert forall|s: Seq<char>| (#[trigger] num(s, m)) is Some implies num(s, m)->0 >= 0 by { lemma_dec_pos(unsigned(s)); } }
// Retry-After: a number of seconds or a date
//@ item src/other/retry_after.rs enum RetryDirective
//@ item src/other/retry_after.rs struct RetryAfter
//@ fn src/other/retry_after.rs RetryAfter::new
//@ ret r
ensures r.inner == RetryDirective::Duration(dur),
//@ end
//@ fn src/other/retry_after.rs RetryAfter::new_at
//@ ret r
ensures r.inner == RetryDirective::SystemTime(at),
//@ end
//@ fn src/other/retry_after.rs RetryAfter::from_headers
//@ ret r
ensures
    match header_values(headers, "retry-after"@) {
        None => r == Ok::<Option<RetryAfter>, Error>(None),
        Some(vs) => match num(vs.last().inner@, u64::MAX as int) {
            Some(n) => if r is Ok { r->Ok_0 is Some && (r->Ok_0->0).inner == RetryDirective::Duration(Duration { s: n as u64, n: 0 }) }
                else { n >= 0x4000_0000_0000_0000 && (r->Err_0).status == StatusCode::BadRequest },
            None => match instant(vs.last().inner@) {
                None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
                Some(n) => r is Ok && r->Ok_0 is Some && ((r->Ok_0->0).inner matches RetryDirective::SystemTime(t) && secs(t) == n),
            },
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(RETRY_AFTER)" => "header_get(headers, \"retry-after\")"
//@ rewrite "headers.last()" => "vec_last(headers).unwrap()"
//@ rewrite "header.as_str().parse::<u64>()" => "parse_u64(header.as_str())"
//@ at start
proof { lemma_num_pos(u64::MAX as int); }
//@ end
impl RetryAfter {
//@ fn src/other/retry_after.rs <RetryAfter as Header>::header_value
//@ bare
//@ ret r
requires self.inner matches RetryDirective::SystemTime(t) ==> writable(t),
ensures
    match self.inner {
        RetryDirective::Duration(d) => r.inner@ == dec_text(d.s as int) && num(r.inner@, u64::MAX as int) == Some(d.s as int),
        RetryDirective::SystemTime(t) => r.inner@ == date_text(day_of(secs(t))) && num(r.inner@, u64::MAX as int) is None && instant(r.inner@) == Some(secs(t)),
    },
//@ fmt
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
proof {
    match self.inner { RetryDirective::Duration(d) => { lemma_dec_text(d.s as int); assert(seq![] + dec_text(d.s as int) =~= dec_text(d.s as int)); } RetryDirective::SystemTime(t) => { axiom_dates(secs(t)); } }
}
//@ end
}
//@ fn src/other/retry_after.rs RetryAfter::duration_since
//@ ret r
ensures self.inner matches RetryDirective::SystemTime(t) ==> since(t, earlier, r),
//@ rewrite "SystemTime::now() + dur" => "now_plus(dur)"
//@ end
impl SystemTime {
//@ fn src/other/retry_after.rs <SystemTime as From<RetryAfter>>::from
//@ bare
//@ rename from_retry_after
ensures retry_after.inner matches RetryDirective::SystemTime(t) ==> r == t,
//@ rewrite "SystemTime::now() + dur" => "now_plus(dur)"
//@ rewrite "-> Self" => "-> (r: SystemTime)"
//@ end
}
//@ fn src/cache/expires.rs Expires::new
//@ rewrite "SystemTime::now() + dur" => "now_plus(dur)"
//@ end
impl Date {
//@ fn src/other/date.rs <Date as PartialEq<SystemTime>>::eq
//@ bare
//@ ret r
ensures r == (self.at == *other),
//@ end
}
}
fn main() {}
