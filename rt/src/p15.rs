use crate::core::*;
use crate::p09::with;
use crate::p13::quote;
use crate::{ck, eqv};
use http_types::headers::{Header, HeaderValue, Headers};
use http_types::trace::{Metric, ServerTiming};
use std::time::Duration;

type M = (String, Option<Duration>, Option<String>);
fn val(m: &Metric) -> M {
    (m.name().clone(), m.duration(), m.description().map(|d| d.to_string()))
}
/// Pieces between separators that are not inside a quoted string.
fn pieces(t: &str, sep: char) -> Vec<String> {
    let mut out = vec![String::new()];
    let (mut q, mut esc) = (false, false);
    for c in t.chars() {
        if !q && c == sep {
            out.push(String::new());
            continue;
        }
        out.last_mut().unwrap().push(c);
        if esc {
            esc = false;
        } else if q && c == '\\' {
            esc = true;
        } else if c == '"' {
            q = !q;
        }
    }
    out
}
/// The whole of the text is one quoted string.
fn unquote_all(t: &str) -> Option<String> {
    let mut it = t.chars();
    if it.next()? != '"' {
        return None;
    }
    let mut o = String::new();
    loop {
        match it.next()? {
            '"' => return if it.next().is_none() { Some(o) } else { None },
            '\\' => match it.next()? {
                e if e != '\t' && (e < ' ' || e == '\u{7f}') => return None,
                e => o.push(e),
            },
            c if c != '\t' && (c < ' ' || c == '\u{7f}') => return None,
            c => o.push(c),
        }
    }
}
fn ref_entry(t: &str) -> Option<M> {
    let ps = pieces(t.trim(), ';');
    let mut m: M = (ps[0].trim_end().to_string(), None, None);
    for p in &ps[1..] {
        if p.is_empty() {
            return None;
        }
        let (n, v) = p.split_once('=')?;
        let v = v.trim_start();
        match n.trim() {
            "dur" => {
                let s: f64 = v.parse().ok()?;
                let n = Duration::try_from_secs_f64(s).ok()?.as_nanos() / 1000;
                m.1 = Some(Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32));
            }
            "desc" => {
                m.2 = Some(match unquote_all(v) {
                    Some(x) => x,
                    None if v.starts_with('"') || v.ends_with('"') => return None,
                    None => v.to_string(),
                })
            }
            _ => {}
        }
    }
    Some(m)
}
fn ref_list(ls: &[String]) -> Option<Vec<M>> {
    let mut out = vec![];
    for l in ls {
        for e in pieces(l.trim(), ',') {
            if !e.trim().is_empty() {
                out.push(ref_entry(&e)?);
            }
        }
    }
    Some(out)
}
fn number(s: &mut Src) -> String {
    match s.below(7) {
        0 => s.pick::<&str>(&["", "-1", "1e3", "1e300", "inf", "NaN", "-0", ".5", "5.", "0x1", "+2", "1 2", "1,5", "18446744073709551615", "18446744073709551616000", "1e-12", "0.0005"]).to_string(),
        1 => s.u64e().to_string(),
        2 => format!("{}.{}", s.below(10000), s.below(1_000_000)),
        _ => s.below(100_000).to_string(),
    }
}
fn text(s: &mut Src) -> String {
    let t = s.frags(&["a", "b db", ",", ";", "=", "\\", "\"", " ", "dur=1", "x, y", "\t"], 5);
    match s.below(4) {
        0 => t,
        1 => format!("\"{}\"", t),
        _ => quote(&t),
    }
}
fn gap(s: &mut Src) -> String {
    s.pick::<&str>(&["", "", "", " ", "  ", "\t"]).to_string()
}
fn el(s: &mut Src) -> String {
    let mut o = s.pick::<&str>(&["db", "cache", "a b", "", "Server ", "\"q\"", "a=b", "x"]).to_string();
    for _ in 0..s.size(3) {
        o += &gap(s);
        o.push(';');
        o += &gap(s);
        let k = *s.pick(&["dur", "desc", "desc", "dur", "other", "Dur", "", "descr"]);
        o += k;
        o += &gap(s);
        if !s.one_in(12) {
            o.push('=');
        }
        o += &gap(s);
        o += &match (k, s.below(4)) {
            ("dur", 0..=2) => number(s),
            (_, 3) => number(s),
            _ => text(s),
        };
    }
    if s.one_in(10) {
        o.push(';');
    }
    o
}
fn read(s: &mut Src) -> R {
    let n = s.below(3);
    let mut ls = vec![];
    for _ in 0..n {
        let mut l = gap(s);
        for i in 0..s.size(3) {
            if i > 0 {
                l.push_str(s.pick::<&str>(&[",", ", ", " , ", ",,", ", ,"]));
            }
            l += &el(s);
        }
        l += &gap(s);
        if l.is_ascii() {
            ls.push(l);
        }
    }
    s.dbg("lines", &ls);
    let h = with("server-timing", &ls);
    let got = ServerTiming::from_headers(&h);
    if ls.is_empty() {
        ck!(matches!(got, Ok(None)), "no header was read as something");
        return Ok(());
    }
    match (got, ref_list(&ls)) {
        (Err(e), None) => eqv!(u16::from(e.status()), 400, "status"),
        (Ok(Some(t)), Some(ms)) => {
            eqv!(t.iter().map(val).collect::<Vec<_>>(), ms, "read");
            eqv!((&t).into_iter().map(val).collect::<Vec<_>>(), ms, "borrowed");
            eqv!(t.into_iter().map(|m| val(&m)).collect::<Vec<_>>(), ms, "owned");
        }
        (Ok(x), want) => ck!(false, "read {:?}, expected {:?}", x.map(|t| t.iter().map(val).collect::<Vec<_>>()), want),
        (Err(e), want) => ck!(false, "refused ({}), expected {:?}", e, want),
    }
    Ok(())
}
fn metric(s: &mut Src) -> M {
    let name = match s.below(3) {
        0 => s.pick::<&str>(&["db", "cache", "a b", "x=y", "total"]).to_string(),
        _ => {
            let t: String = s.ascii_str(8).chars().filter(|c| !",;\"".contains(*c) && !c.is_control()).collect();
            let t = t.trim().to_string();
            if t.is_empty() { "m".into() } else { t }
        }
    };
    let dur = match s.below(4) {
        0 => None,
        1 => Some(Duration::from_micros(s.below(10_000_000) as u64)),
        _ => Some(Duration::from_millis(s.below(10_000_000) as u64)),
    };
    let desc = if s.one_in(3) { None } else if s.one_in(4) { Some(s.str_of(&['"', '\\', 'a', ' ', ',', ';', '\\', '"'], 6)) } else { Some(s.ascii_str(10).chars().filter(|c| *c == '\t' || !c.is_control()).collect()) };
    (name, dur, desc)
}
fn written(m: &M) -> String {
    let mut o = m.0.clone();
    if let Some(d) = m.1 {
        o += &format!("; dur={}", d.as_secs_f64() * 1000.0);
    }
    if let Some(d) = &m.2 {
        o += &format!("; desc={}", quote(d));
    }
    o
}
/// A duration in milliseconds survives being printed when it is read back to the nanosecond.
fn survives(d: Duration) -> bool {
    ref_entry(&format!("x;dur={}", d.as_secs_f64() * 1000.0)).and_then(|m| m.1) == Some(d)
}
fn write(s: &mut Src) -> R {
    let ms: Vec<M> = (0..s.size(3)).map(|_| metric(s)).collect();
    s.dbg("metrics", &ms);
    let mut t = ServerTiming::new();
    for m in &ms {
        let x = Metric::new(m.0.clone(), m.1, m.2.clone()).map_err(|e| e.to_string())?;
        eqv!(val(&x), m.clone(), "Metric::new");
        let v: HeaderValue = x.clone().into();
        eqv!(v.as_str(), written(m).as_str(), "metric written");
        t.push(x);
    }
    for (x, m) in t.iter_mut().zip(&ms) {
        eqv!(val(x), m.clone(), "iter_mut");
    }
    eqv!(t.header_value().as_str(), ms.iter().map(written).collect::<Vec<_>>().join(", ").as_str(), "written");
    let mut h = old(s, "server-timing");
    t.apply_header(&mut h);
    let back = ServerTiming::from_headers(&h).map_err(|e| e.to_string())?.ok_or("gone")?;
    if ms.iter().all(|m| m.1.map(survives).unwrap_or(true)) {
        eqv!(back.iter().map(val).collect::<Vec<_>>(), ms, "read back");
    } else {
        eqv!(back.iter().map(|m| { let v = val(m); (v.0, v.2) }).collect::<Vec<_>>(), ms.iter().map(|m| (m.0.clone(), m.2.clone())).collect::<Vec<_>>(), "read back");
    }
    let name = s.any_str(4);
    let desc = s.any_str(4);
    s.note("name", &name);
    s.note("desc", &desc);
    let dur = if s.one_in(2) { None } else { Some(Duration::from_millis(s.below(5) as u64)) };
    eqv!(Metric::new(name.clone(), dur, Some(desc.clone())).is_ok(), name.is_ascii() && desc.is_ascii(), "ASCII only");
    eqv!(Metric::new(name.clone(), dur, None).is_ok(), name.is_ascii(), "ASCII only");
    Ok(())
}
pub fn contracts() -> Vec<C> {
    vec![
        C { id: "timing.read", clause: "Server-Timing is read exactly or refused with 400", how: How::Rand(60_000), f: read },
        C { id: "timing.write", clause: "metrics are written in order and read back", how: How::Rand(40_000), f: write },
    ]
}
