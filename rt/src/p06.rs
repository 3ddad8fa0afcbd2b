use crate::core::*;
use crate::{ck, eqv};
use http_types::cache::Expires;
use http_types::conditional::{IfModifiedSince, IfUnmodifiedSince, LastModified};
use http_types::headers::Header;
use http_types::other::{Date, RetryAfter};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

const DAY: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
const DAY_LONG: [&str; 7] = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"];
const MONTH: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

fn leap(y: u64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn mlen(y: u64, m: u64) -> u64 {
    [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1]
}
fn year_start(y: u64) -> u64 {
    (1970..y).map(|y| if leap(y) { 366 } else { 365 }).sum()
}
fn day_number(y: u64, m: u64, d: u64) -> u64 {
    year_start(y) + (1..m).map(|m| mlen(y, m)).sum::<u64>() + d - 1
}
fn weekday(n: u64) -> usize {
    ((n + 3) % 7) as usize
}

fn show(d: SystemTime) -> String {
    Date::new(d).header_value().as_str().to_string()
}
fn parse(t: &str) -> Result<SystemTime, http_types::Error> {
    let mut h = hs();
    h.insert("date", t).unwrap();
    Date::from_headers(&h).map(|d| d.unwrap().into())
}
fn secs(t: SystemTime) -> u64 {
    t.duration_since(UNIX_EPOCH).unwrap().as_secs()
}

/// Every day of one year: the text is the calendar's, and it parses back.
fn year(s: &mut Src) -> R {
    let y = 1970 + s.choose(8030);
    s.note("year", y);
    let mut n = year_start(y);
    for m in 1..=12 {
        for d in 1..=mlen(y, m) {
            let sod = (n * 7919 + y * 31) % 86400;
            let (h, mi, sec) = (sod / 3600, sod / 60 % 60, sod % 60);
            let want = format!("{}, {:02} {} {:04} {:02}:{:02}:{:02} GMT", DAY[weekday(n)], d, MONTH[m as usize - 1], y, h, mi, sec);
            let t = UNIX_EPOCH + Duration::from_secs(n * 86400 + sod);
            let got = show(t + Duration::from_nanos(if sod % 2 == 0 { 999_999_999 } else { 0 }));
            eqv!(got, want, "text of {} s after the epoch", n * 86400 + sod);
            eqv!(parse(&want).map_err(|e| e.to_string())?, t, "instant of {}", want);
            n += 1;
        }
    }
    Ok(())
}

/// The other two formats, for any date of their range.
fn formats(s: &mut Src) -> R {
    let y = if s.bool() { 1970 + s.choose(100) } else { 1970 + s.choose(8030) };
    let m = 1 + s.choose(12);
    let d = 1 + s.choose(mlen(y, m));
    let (h, mi, sec) = (s.choose(24), s.choose(60), s.choose(60));
    let n = day_number(y, m, d);
    let want = UNIX_EPOCH + Duration::from_secs(n * 86400 + h * 3600 + mi * 60 + sec);
    let asc = format!("{} {} {:>2} {:02}:{:02}:{:02} {:04}", DAY[weekday(n)], MONTH[m as usize - 1], d, h, mi, sec, y);
    let asc0 = format!("{} {} {:02} {:02}:{:02}:{:02} {:04}", DAY[weekday(n)], MONTH[m as usize - 1], d, h, mi, sec, y);
    s.note("date", &asc);
    eqv!(parse(&asc).map_err(|e| e.to_string())?, want, "asctime");
    eqv!(parse(&asc0).map_err(|e| e.to_string())?, want, "asctime with a zero");
    eqv!(parse(&format!("  {} ", asc)).map_err(|e| e.to_string())?, want, "asctime with blanks around");
    if y < 2070 {
        let r = format!("{}, {:02}-{}-{:02} {:02}:{:02}:{:02} GMT", DAY_LONG[weekday(n)], d, MONTH[m as usize - 1], y % 100, h, mi, sec);
        eqv!(parse(&r).map_err(|e| e.to_string())?, want, "rfc850 {}", r);
    }
    Ok(())
}

/// What the three grammars say about a text (weekday names are checked as names only).
fn grammar(t: &str) -> Option<SystemTime> {
    let t = t.trim();
    if !t.is_ascii() {
        return None;
    }
    let num = |x: &str| if !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit()) { x.parse::<u64>().ok() } else { None };
    let month = |x: &str| MONTH.iter().position(|m| *m == x).map(|i| i as u64 + 1);
    let clock = |x: &str| {
        let p: Vec<&str> = x.split(':').collect();
        if p.len() == 3 && p.iter().all(|q| q.len() == 2) {
            Some((num(p[0])?, num(p[1])?, num(p[2])?))
        } else {
            None
        }
    };
    let b: Vec<&str> = t.split(' ').collect();
    let (y, m, d, c);
    if b.len() == 6 && b[0].len() == 4 && b[0].ends_with(',') && DAY.contains(&&b[0][..3]) && b[5] == "GMT" && b[1].len() == 2 && b[3].len() == 4 {
        d = num(b[1])?;
        m = month(b[2])?;
        y = num(b[3])?;
        c = clock(b[4])?;
    } else if b.len() == 4 && b[0].ends_with(',') && DAY_LONG.contains(&&b[0][..b[0].len() - 1]) && b[3] == "GMT" {
        let p: Vec<&str> = b[1].split('-').collect();
        if p.len() != 3 || p[0].len() != 2 || p[2].len() != 2 {
            return None;
        }
        d = num(p[0])?;
        m = month(p[1])?;
        let yy = num(p[2])?;
        y = if yy < 70 { 2000 + yy } else { 1900 + yy };
        c = clock(b[2])?;
    } else if t.len() == 24 && DAY.contains(&&t[..3]) && &t[3..4] == " " && &t[7..8] == " " && &t[10..11] == " " && &t[19..20] == " " {
        m = month(&t[4..7])?;
        d = num(t[8..10].strip_prefix(' ').unwrap_or(&t[8..10]))?;
        c = clock(&t[11..19])?;
        y = num(&t[20..])?;
    } else {
        return None;
    }
    if !(1970..=9999).contains(&y) || d == 0 || d > mlen(y, m) || c.0 > 23 || c.1 > 59 || c.2 > 59 {
        return None;
    }
    Some(UNIX_EPOCH + Duration::from_secs(day_number(y, m, d) * 86400 + c.0 * 3600 + c.1 * 60 + c.2))
}

fn any_text(s: &mut Src) -> String {
    let two = |s: &mut Src| -> String {
        match s.below(8) {
            0 => format!("{}", s.choose(10)),
            1 => format!("+{}", s.choose(10)),
            2 => format!(" {}", s.choose(10)),
            3 => format!("{:02}", s.choose(100)),
            _ => format!("{:02}", s.choose(32)),
        }
    };
    let y = match s.below(5) {
        0 => format!("{:04}", s.choose(10000)),
        1 => format!("{:02}", s.choose(100)),
        2 => s.pick(&["1969", "1970", "9999", "2000", "2100", "+999", "-200", "1900", "2400", "00"]).to_string(),
        _ => format!("{:04}", 1970 + s.choose(200)),
    };
    let day = *s.pick(&DAY);
    let dayl = *s.pick(&DAY_LONG);
    let m = if s.one_in(12) { "jan" } else { *s.pick(&MONTH) };
    let clock = format!("{}:{}:{}", two(s), two(s), two(s));
    let d = two(s);
    let t = match s.below(4) {
        0 => format!("{}, {} {} {} {} GMT", day, d, m, y, clock),
        1 => format!("{}, {}-{}-{} {} GMT", dayl, d, m, &y[y.len() - 2..], clock),
        2 => format!("{} {} {} {} {}", day, m, d, clock, y),
        _ => {
            let y2 = 1970 + s.choose(130);
            let mm = 1 + s.choose(12);
            let dd = 1 + s.choose(31);
            match s.below(3) {
                0 => format!("Sun, {:02} {} {:04} 08:49:{:02} GMT", dd, MONTH[mm as usize - 1], y2, s.choose(62)),
                1 => format!("Sunday, {:02}-{}-{:02} {:02}:49:37 GMT", dd, MONTH[mm as usize - 1], y2 % 100, s.choose(26)),
                _ => format!("Sun {} {:>2} 08:{:02}:37 {:04}", MONTH[mm as usize - 1], dd, s.choose(62), y2),
            }
        }
    };
    let t = if s.one_in(3) { crate::p02::mutate(s, &t) } else { t };
    if s.one_in(3) { s.padded(&t) } else { t }
}

fn accepts(s: &mut Src) -> R {
    let t = any_text(s);
    if !t.is_ascii() {
        return Ok(());
    }
    s.dbg("text", &t);
    match (parse(&t), grammar(&t)) {
        (Ok(a), Some(b)) => eqv!(a, b, "instant of {:?}", t),
        (Err(e), None) => eqv!(e.status(), 400, "status of the error"),
        (Ok(a), None) => return Err(format!("accepted {:?}, which is no HTTP date, as {} s", t, secs(a))),
        (Err(e), Some(b)) => return Err(format!("refused {:?}, which is {} s: {}", t, secs(b), e)),
    }
    Ok(())
}

/// The headers made of a date carry it unchanged, to the second.
fn headers(s: &mut Src) -> R {
    let n = match s.below(3) {
        0 => s.choose(253402300800),
        1 => 253402300799 - s.choose(100_000),
        _ => s.choose(4_000_000_000),
    };
    let nanos = *s.pick(&[0u32, 1, 500_000_000, 999_999_999]);
    s.note("instant", format!("{}.{:09}", n, nanos));
    let t = UNIX_EPOCH + Duration::new(n, nanos);
    let whole = UNIX_EPOCH + Duration::from_secs(n);
    let text = show(t);
    let mut h = hs();
    macro_rules! one {
        ($ty:ident, $make:expr, $get:expr, $name:expr) => {{
            let v = $make;
            eqv!(v.header_value().as_str(), text, "{} text", stringify!($ty));
            eqv!(v.header_name().as_str(), $name, "{} name", stringify!($ty));
            v.apply_header(&mut h);
            let back = $ty::from_headers(&h).map_err(|e| e.to_string())?;
            ck!(back.is_some(), "{} lost", stringify!($ty));
            let f: fn($ty) -> SystemTime = $get;
            eqv!(f(back.unwrap()), whole, "{} round trip", stringify!($ty));
            // a bad value is an error, not an absent header
            let mut bad = hs();
            bad.insert($name, "Sun, 32 Nov 1994 08:49:37 GMT").unwrap();
            match $ty::from_headers(&bad) {
                Err(e) => eqv!(e.status(), 400, "{} error status", stringify!($ty)),
                Ok(_) => return Err(format!("{} accepted an impossible date", stringify!($ty))),
            }
            ck!(matches!($ty::from_headers(&hs()), Ok(None)), "{} absent", stringify!($ty));
            // the last of several values counts
            let mut two = hs();
            two.append($name, "Sun, 06 Nov 1994 08:49:37 GMT").unwrap();
            two.append($name, text.as_str()).unwrap();
            let back = $ty::from_headers(&two).map_err(|e| e.to_string())?;
            eqv!(back.map(f), Some(whole), "{} with two values", stringify!($ty));
        }};
    }
    one!(Date, Date::new(t), |d| d.into(), "date");
    one!(Date, Date::from(t), |d| d.into(), "date");
    one!(Expires, Expires::new_at(t), |d| d.expiration(), "expires");
    one!(IfModifiedSince, IfModifiedSince::new(t), |d| d.modified(), "if-modified-since");
    one!(IfUnmodifiedSince, IfUnmodifiedSince::new(t), |d| d.modified(), "if-unmodified-since");
    one!(LastModified, LastModified::new(t), |d| d.modified(), "last-modified");
    one!(RetryAfter, RetryAfter::new_at(t), |d| d.into(), "retry-after");
    Ok(())
}

/// Dates compare as their instants do.
fn order(s: &mut Src) -> R {
    let a = s.choose(5_000_000_000);
    let b = if s.bool() { a + s.choose(3) } else { s.choose(5_000_000_000) };
    let (ta, tb) = (UNIX_EPOCH + Duration::from_secs(a), UNIX_EPOCH + Duration::from_secs(b));
    s.note("instants", format!("{} {}", a, b));
    eqv!(Date::new(ta) == tb, a == b, "Date == SystemTime");
    eqv!(IfModifiedSince::new(ta) == IfModifiedSince::new(tb), a == b, "IfModifiedSince ==");
    eqv!(IfModifiedSince::new(ta) < IfModifiedSince::new(tb), a < b, "IfModifiedSince <");
    eqv!(LastModified::new(ta) < LastModified::new(tb), a < b, "LastModified <");
    eqv!(Expires::new_at(ta) < Expires::new_at(tb), a < b, "Expires <");
    Ok(())
}

fn retry(s: &mut Src) -> R {
    // the instant an expiry is made for
    let d = Duration::new(s.choose(1 << 33), s.choose(1_000_000_000) as u32);
    let (before, e, after) = (SystemTime::now(), Expires::new(d).expiration(), SystemTime::now());
    ck!(before + d <= e && e <= after + d, "an expiry in {:?} is {:?}", d, e);
    // a delay too long for an instant is refused, it does not fail later
    let big = if s.bool() { u64::MAX - s.choose(1000) } else { (i64::MAX as u64 - (1 << 32)) + s.choose(1 << 33) };
    let mut h = hs();
    h.insert("retry-after", big.to_string()).unwrap();
    match RetryAfter::from_headers(&h) {
        Ok(Some(r)) => {
            let at: SystemTime = r.into();
            ck!(at > SystemTime::now(), "delay of {} s became {:?}", big, at);
        }
        Ok(None) => return Err("retry-after line not read".into()),
        Err(e) => eqv!(e.status(), http_types::StatusCode::BadRequest, "status of a delay of {} s", big),
    }
    let n = if s.bool() { s.choose(100_000) } else { s.choose(1 << 33) };
    s.note("seconds", n);
    let r = RetryAfter::new(Duration::new(n, 999_999_999));
    eqv!(r.header_value().as_str(), n.to_string(), "delay text");
    let mut h = hs();
    h.insert("retry-after", n.to_string()).unwrap();
    let back = RetryAfter::from_headers(&h).map_err(|e| e.to_string())?.ok_or("lost")?;
    eqv!(back, RetryAfter::new(Duration::from_secs(n)), "delay round trip");
    let now = SystemTime::now();
    let d = back.duration_since(now).map_err(|e| e.to_string())?;
    ck!(d >= Duration::from_secs(n) && d < Duration::from_secs(n + 60), "delay of {} s reported as {:?}", n, d);
    let at: SystemTime = back.into();
    let d = at.duration_since(now).map_err(|e| e.to_string())?;
    ck!(d >= Duration::from_secs(n) && d < Duration::from_secs(n + 60), "delay of {} s became {:?}", n, d);
    let at = UNIX_EPOCH + Duration::from_secs(n);
    let d = RetryAfter::new_at(at).duration_since(UNIX_EPOCH).map_err(|e| e.to_string())?;
    eqv!(d.as_secs(), n, "duration_since of a fixed instant");
    Ok(())
}

pub fn contracts() -> Vec<C> {
    vec![
        C { id: "date.year", clause: "every day from 1970 to 9999: the text is the calendar's and parses back to the instant", how: How::All(8030), f: year },
        C { id: "date.formats", clause: "RFC 850 and asctime texts of a date denote the same instant", how: How::Rand(20000), f: formats },
        C { id: "date.accepts", clause: "a text is accepted exactly when it is one of the three formats of a calendar date, otherwise 400", how: How::Rand(120000), f: accepts },
        C { id: "date.headers", clause: "date-valued headers round-trip to the second", how: How::Rand(6000), f: headers },
        C { id: "date.order", clause: "date-valued headers compare as instants", how: How::Rand(4000), f: order },
        C { id: "date.retry", clause: "Retry-After keeps delays and instants apart", how: How::Rand(4000), f: retry },
    ]
}
