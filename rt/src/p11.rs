use crate::core::*;
use crate::p09::with;
use crate::{ck, eqv};
use http_types::cache::{Age, CacheControl, CacheDirective, ClearDirective, ClearSiteData};
use http_types::content::ContentLength;
use http_types::headers::Header;
use http_types::StatusCode;
use std::time::Duration;

const PLAIN: &[&str] = &["immutable", "must-revalidate", "no-cache", "no-store", "no-transform", "only-if-cached", "private", "proxy-revalidate", "public"];
const TIMED: &[&str] = &["max-age", "min-fresh", "s-maxage", "stale-if-error", "stale-while-revalidate"];
const REQ: &[&str] = &["max-age", "max-stale", "min-fresh", "no-cache", "no-store", "no-transform", "only-if-cached", "stale-if-error"];
const RES: &[&str] = &["must-revalidate", "no-cache", "no-store", "no-transform", "public", "private", "proxy-revalidate", "max-age", "s-maxage", "stale-if-error", "stale-while-revalidate", "immutable"];
type Dir = (String, Option<u64>);
fn val(d: &CacheDirective) -> (&'static str, Option<Duration>) {
    use CacheDirective::*;
    match d {
        Immutable => ("immutable", None),
        MaxAge(x) => ("max-age", Some(*x)),
        MaxStale(x) => ("max-stale", *x),
        MinFresh(x) => ("min-fresh", Some(*x)),
        MustRevalidate => ("must-revalidate", None),
        NoCache => ("no-cache", None),
        NoStore => ("no-store", None),
        NoTransform => ("no-transform", None),
        OnlyIfCached => ("only-if-cached", None),
        Private => ("private", None),
        ProxyRevalidate => ("proxy-revalidate", None),
        Public => ("public", None),
        SMaxAge(x) => ("s-maxage", Some(*x)),
        StaleIfError(x) => ("stale-if-error", Some(*x)),
        StaleWhileRevalidate(x) => ("stale-while-revalidate", Some(*x)),
        _ => ("?", None),
    }
}
fn make(n: &str, d: Duration, bare: bool) -> CacheDirective {
    use CacheDirective::*;
    match n {
        "immutable" => Immutable,
        "max-age" => MaxAge(d),
        "max-stale" => MaxStale(if bare { None } else { Some(d) }),
        "min-fresh" => MinFresh(d),
        "must-revalidate" => MustRevalidate,
        "no-cache" => NoCache,
        "no-store" => NoStore,
        "no-transform" => NoTransform,
        "only-if-cached" => OnlyIfCached,
        "private" => Private,
        "proxy-revalidate" => ProxyRevalidate,
        "public" => Public,
        "s-maxage" => SMaxAge(d),
        "stale-if-error" => StaleIfError(d),
        _ => StaleWhileRevalidate(d),
    }
}
fn number(s: &str) -> Option<u64> {
    let t = s.strip_prefix('+').unwrap_or(s);
    if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut n: u64 = 0;
    for b in t.bytes() {
        n = n.checked_mul(10)?.checked_add((b - b'0') as u64)?;
    }
    Some(n)
}
// Some(None): no directive here; None: malformed
fn ref_dir(el: &str) -> Option<Option<Dir>> {
    let t = el.trim().to_lowercase();
    let ps: Vec<&str> = t.split('=').collect();
    let n = ps[0];
    if PLAIN.contains(&n) {
        Some(Some((n.into(), None)))
    } else if TIMED.contains(&n) || (n == "max-stale" && ps.len() > 1) {
        Some(Some((n.into(), Some(number(ps.get(1)?)?))))
    } else if n == "max-stale" {
        Some(Some((n.into(), None)))
    } else {
        Some(None)
    }
}
fn num_text(s: &mut Src) -> String {
    match s.below(8) {
        0 => u64::MAX.to_string(),
        1 => "18446744073709551616".into(),
        2 => s.pick::<&str>(&["", "+5", "-1", " 5", "5 ", "0x5", "1.5", "007", "\"5\"", "5s", "+", "9".repeat(40).as_str()]).to_string(),
        3 => s.u64e().to_string(),
        _ => s.below(100000).to_string(),
    }
}
fn el(s: &mut Src) -> String {
    let n = match s.below(4) {
        0 => s.pick(PLAIN).to_string(),
        1 => s.pick::<&str>(&["max-stale", "", "x-unknown", "maxage", "no cache", "s-max-age", "public2", "no-cache\u{0}"]).to_string(),
        _ => s.pick(TIMED).to_string(),
    };
    let n = if s.one_in(4) { n.to_uppercase() } else { n };
    match s.below(6) {
        0 => n,
        1 => format!("{}={}={}", n, num_text(s), num_text(s)),
        2 => format!("{}=", n),
        _ => format!("{}={}", n, num_text(s)),
    }
}
fn lines_of(s: &mut Src, f: fn(&mut Src) -> String) -> Vec<String> {
    (0..1 + s.below(3))
        .map(|_| {
            let mut o = s.pick::<&str>(&["", "", " ", "\t"]).to_string();
            for i in 0..s.size(4) {
                if i > 0 {
                    o.push_str(s.pick::<&str>(&[",", ", ", " , ", ",,", ", ,", "\t,"]));
                }
                o.push_str(&f(s));
            }
            s.padded(&o)
        })
        .collect()
}
fn control_read(s: &mut Src) -> R {
    let ls = lines_of(s, el);
    s.dbg("Cache-Control", &ls);
    let want: Option<Vec<Option<Dir>>> = ls.iter().flat_map(|l| l.split(',')).map(ref_dir).collect();
    let want = want.map(|w| w.into_iter().flatten().collect::<Vec<_>>());
    match (CacheControl::from_headers(with("cache-control", &ls)), want) {
        (Ok(Some(c)), Some(w)) => eqv!(c.iter().map(|d| { let v = val(d); (v.0.to_string(), v.1.map(|d| d.as_secs())) }).collect::<Vec<_>>(), w, "directives read"),
        (Err(e), None) => eqv!(e.status(), StatusCode::BadRequest, "status of a malformed directive"),
        (g, w) => return Err(format!("Cache-Control: got {:?}, contract says {:?}", g.map_err(|e| e.to_string()), w)),
    }
    Ok(())
}
fn any_directive(s: &mut Src) -> CacheDirective {
    let names: Vec<&str> = PLAIN.iter().chain(TIMED).copied().chain(["max-stale"]).collect();
    let n = *s.pick(&names);
    let secs = if s.bool() { s.u64e() } else { s.below(100000) as u64 };
    let nanos = if s.one_in(4) { s.below(1_000_000_000) as u32 } else { 0 };
    let bare = s.bool();
    make(n, Duration::new(secs, nanos), bare)
}
fn control_written(s: &mut Src) -> R {
    let ds: Vec<CacheDirective> = (0..s.size(5)).map(|_| any_directive(s)).collect();
    s.dbg("directives", &ds);
    let mut c = CacheControl::new();
    for d in &ds {
        c.push(d.clone());
    }
    let v = c.header_value().as_str().to_string();
    let want: Vec<String> = ds.iter().map(|d| { let (n, a) = val(d); a.map_or(n.to_string(), |a| format!("{}={}", n, a.as_secs())) }).collect();
    eqv!(v, want.join(", "), "header text");
    let b = CacheControl::from_headers(written(s, "cache-control", &c)?).map_err(|e| format!("{:?} written and refused: {}", v, e))?.unwrap();
    let whole = |d: &CacheDirective| { let (n, a) = val(d); (n, a.map(|a| a.as_secs())) };
    eqv!(b.iter().map(whole).collect::<Vec<_>>(), ds.iter().map(whole).collect::<Vec<_>>(), "written as {:?} and read back", v);
    ck!(b.iter().all(|d| val(d).1.map_or(true, |a| a.subsec_nanos() == 0)), "fractions of a second out of nowhere");
    eqv!((&c).into_iter().cloned().collect::<Vec<_>>(), ds, "listed");
    eqv!(c.iter_mut().map(|d| d.clone()).collect::<Vec<_>>(), ds, "listed mutably");
    eqv!(c.into_iter().collect::<Vec<_>>(), ds, "consumed");
    Ok(())
}
fn control_validity(s: &mut Src) -> R {
    let d = any_directive(s);
    s.dbg("directive", &d);
    let n = val(&d).0;
    eqv!(d.valid_in_req(), REQ.contains(&n), "valid in requests");
    eqv!(d.valid_in_res(), RES.contains(&n), "valid in responses");
    Ok(())
}
const CLEAR: &[(&str, ClearDirective)] = &[("\"cache\"", ClearDirective::Cache), ("\"cookies\"", ClearDirective::Cookies), ("\"storage\"", ClearDirective::Storage), ("\"executionContexts\"", ClearDirective::ExecutionContexts)];
fn clear_el(s: &mut Src) -> String {
    match s.below(10) {
        0 => "\"*\"".into(),
        1 => "".into(),
        2 => s.pick::<&str>(&["*", "cache", "\"Cache\"", "\"executioncontexts\"", "\"cache", "\"cache\"\"", "\"\"", "\"x\""]).to_string(),
        _ => s.pick(CLEAR).0.to_string(),
    }
}
fn clear(s: &mut Src) -> R {
    let ls = lines_of(s, clear_el);
    s.dbg("Clear-Site-Data", &ls);
    let mut any = false;
    let mut want = Some(vec![]);
    for e in ls.iter().flat_map(|l| l.split(',')) {
        match e.trim() {
            "" => {}
            "\"*\"" => any = true,
            t => match CLEAR.iter().find(|c| c.0 == t) {
                Some(c) => want = want.map(|mut w| { w.push(c.1); w }),
                None => want = None,
            },
        }
    }
    match (ClearSiteData::from_headers(with("clear-site-data", &ls)), want) {
        (Ok(Some(mut c)), Some(w)) => {
            eqv!((c.wildcard(), c.iter().copied().collect::<Vec<_>>()), (any, w.clone()), "directives read");
            let v = c.header_value().as_str().to_string();
            let b = ClearSiteData::from_headers(written(s, "clear-site-data", &c)?).map_err(|e| format!("{:?} written and refused: {}", v, e))?.unwrap();
            eqv!((b.wildcard(), b.iter().copied().collect::<Vec<_>>()), (any, w.clone()), "written as {:?} and read back", v);
            c.push(ClearDirective::Storage);
            c.set_wildcard(!any);
            eqv!((c.wildcard(), c.iter().count()), (!any, w.len() + 1), "after a push");
            eqv!(c.iter_mut().map(|d| *d).last(), Some(ClearDirective::Storage), "pushed last");
        }
        (Err(e), None) => eqv!(e.status(), StatusCode::BadRequest, "status of a malformed directive"),
        (g, w) => return Err(format!("Clear-Site-Data: got {:?}, contract says {:?}", g.map_err(|e| e.to_string()), w)),
    }
    Ok(())
}
fn numbers(s: &mut Src) -> R {
    let ls: Vec<String> = (0..1 + s.below(3)).map(|_| { let t = num_text(s); if s.one_in(4) { s.padded(&t) } else { t } }).collect();
    s.dbg("lines", &ls);
    let last = ls.last().unwrap();
    match (Age::from_headers(with("age", &ls)), number(last)) {
        (Ok(Some(a)), Some(n)) => {
            eqv!(a.duration(), Duration::from_secs(n), "age");
            eqv!(a.header_value().as_str(), n.to_string(), "age written");
        }
        (Err(e), None) => eqv!(e.status(), StatusCode::BadRequest, "status of a malformed age"),
        (g, w) => return Err(format!("Age: got {:?}, contract says {:?}", g.map_err(|e| e.to_string()), w)),
    }
    match (ContentLength::from_headers(with("content-length", &ls)), number(last.trim())) {
        (Ok(Some(a)), Some(n)) => {
            eqv!(a.len(), n, "content length");
            eqv!(a.header_value().as_str(), n.to_string(), "content length written");
        }
        (Err(e), None) => eqv!(e.status(), StatusCode::BadRequest, "status of a malformed content length"),
        (g, w) => return Err(format!("Content-Length: got {:?}, contract says {:?}", g.map_err(|e| e.to_string()), w)),
    }
    ck!(!ClearSiteData::new().wildcard() && ClearSiteData::new().iter().count() == 0, "a new Clear-Site-Data says something");
    let n = s.u64e();
    let a = Age::new(Duration::new(n, s.below(1000) as u32));
    eqv!(Age::from_headers(written(s, "age", &a)?).unwrap().unwrap(), Age::from_secs(n), "age written and read back");
    let mut c = ContentLength::new(n);
    eqv!(ContentLength::from_headers(written(s, "content-length", &c)?).unwrap().unwrap().len(), n, "content length written and read back");
    c.set_len(n / 2);
    eqv!(c.len(), n / 2, "content length set");
    ck!(Age::from_headers(hs()).unwrap().is_none() && ContentLength::from_headers(hs()).unwrap().is_none(), "a header that is not there was read");
    Ok(())
}
pub fn contracts() -> Vec<C> {
    vec![
        C { id: "cache.read", clause: "Cache-Control gives exactly its known directives, in order", how: How::Rand(20000), f: control_read },
        C { id: "cache.written", clause: "a written Cache-Control reads back equal, to the second", how: How::Rand(10000), f: control_written },
        C { id: "cache.valid", clause: "a directive is valid in requests and responses as registered", how: How::Rand(500), f: control_validity },
        C { id: "cache.clear", clause: "Clear-Site-Data reads its directives and reads back as written", how: How::Rand(10000), f: clear },
        C { id: "cache.numbers", clause: "Age and Content-Length are read from the last line and read back as written", how: How::Rand(10000), f: numbers },
    ]
}
