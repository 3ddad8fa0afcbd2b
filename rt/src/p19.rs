use crate::core::*;
use crate::p02::{mutate, METHODS};
use crate::p07::mime_text;
use crate::p09::with;
use crate::{ck, eqv};
use http_types::conditional::Vary;
use http_types::content::{ContentLocation, ContentType};
use http_types::headers::{Header, HeaderName};
use http_types::mime::Mime;
use http_types::other::{Expect, Referer, SourceMap};
use http_types::server::Allow;
use http_types::{Method, Url};
use std::collections::BTreeSet;
use std::str::FromStr;

fn method_of(t: &str) -> Option<&'static str> {
    METHODS.iter().find(|m| m.0.eq_ignore_ascii_case(t)).map(|m| m.0)
}
fn lines(s: &mut Src, f: &dyn Fn(&mut Src) -> String) -> Vec<String> {
    (0..s.size(3))
        .map(|_| {
            let mut o = s.pick::<&str>(&["", "", " ", "\t"]).to_string();
            for i in 0..s.size(4) {
                if i > 0 {
                    o.push_str(s.pick::<&str>(&[",", ", ", " ,", ",,", ", ,\t", " "]));
                }
                o.push_str(&f(s));
            }
            o.push_str(s.pick::<&str>(&["", "", " ", ","]));
            o
        })
        .filter(|l| l.is_ascii())
        .collect()
}
fn allow(s: &mut Src) -> R {
    let ls = lines(s, &|s| {
        let b = s.pick(METHODS).0;
        match s.below(8) {
            0 => mutate(s, b),
            1 => b.to_lowercase(),
            2 => String::new(),
            _ => b.to_string(),
        }
    });
    s.dbg("lines", &ls);
    let mut want: Option<BTreeSet<&str>> = Some(BTreeSet::new());
    for e in ls.iter().flat_map(|l| l.split(',')).map(|e| e.trim()).filter(|e| !e.is_empty()) {
        match (method_of(e), &mut want) {
            (Some(m), Some(w)) => {
                w.insert(m);
            }
            _ => want = None,
        }
    }
    let names = |ms: Vec<Method>| {
        let n = ms.len();
        let v: BTreeSet<String> = ms.iter().map(|m| m.to_string()).collect();
        if n == v.len() { Ok(v) } else { Err(format!("a method twice in {:?}", ms)) }
    };
    match (Allow::from_headers(with("allow", &ls)), want) {
        (Ok(None), _) => ck!(ls.is_empty(), "header not read"),
        (Err(_), w) => eqv!(w, None, "refused"),
        (Ok(Some(a)), w) => {
            ck!(!ls.is_empty(), "no header read as one");
            let w = w.ok_or_else(|| format!("accepted as {:?}", a))?;
            let w: BTreeSet<String> = w.iter().map(|m| m.to_string()).collect();
            for (t, m) in METHODS {
                eqv!(a.contains(*m), w.contains(*t), "contains");
            }
            eqv!(names(a.iter().cloned().collect())?, w, "iter");
            eqv!(names((&a).into_iter().cloned().collect())?, w, "borrowed");
            eqv!(names(a.into_iter().collect())?, w, "owned");
        }
    }
    let ms: Vec<Method> = (0..s.size(5)).map(|_| s.pick(METHODS).1).collect();
    s.dbg("methods", &ms);
    let mut a = Allow::new();
    ms.iter().for_each(|m| a.insert(*m));
    let w: BTreeSet<String> = ms.iter().map(|m| m.to_string()).collect();
    let t = a.header_value();
    let parts: Vec<&str> = if w.is_empty() { vec![] } else { t.as_str().split(", ").collect() };
    eqv!(parts.len(), w.len(), "elements written");
    eqv!(parts.iter().map(|p| p.to_string()).collect::<BTreeSet<_>>(), w, "written");
    let mut h = old(s, "allow");
    a.apply_header(&mut h);
    eqv!(h.get("allow").map(|v| v.as_str().to_string()), Some(t.as_str().to_string()), "applied");
    let b = Allow::from_headers(&h).map_err(|e| e.to_string())?.ok_or("gone")?;
    eqv!(names(b.iter().cloned().collect())?, w, "read back");
    Ok(())
}
fn vary(s: &mut Src) -> R {
    const NAMES: &[&str] = &["accept", "Accept-Encoding", "x y", "*", "*", "", "USER-agent", "a*", "**", "x-1"];
    let ls = lines(s, &|s| s.pick::<&str>(NAMES).to_string());
    s.dbg("lines", &ls);
    let (mut es, mut w) = (vec![], false);
    for e in ls.iter().flat_map(|l| l.split(',')).map(|e| e.trim()) {
        match e {
            "*" => w = true,
            "" => {}
            e => es.push(e.to_ascii_lowercase()),
        }
    }
    let text = |ns: Vec<HeaderName>| ns.iter().map(|n| n.as_str().to_string()).collect::<Vec<_>>();
    match Vary::from_headers(with("vary", &ls)) {
        Ok(None) => ck!(ls.is_empty(), "header not read"),
        Err(e) => ck!(false, "refused: {}", e),
        Ok(Some(mut v)) => {
            ck!(!ls.is_empty(), "no header read as one");
            eqv!(v.wildcard(), w, "wildcard");
            eqv!(text(v.iter().cloned().collect()), es, "iter");
            eqv!(text(v.iter_mut().map(|n| n.clone()).collect()), es, "iter_mut");
            eqv!(text((&v).into_iter().cloned().collect()), es, "borrowed");
            eqv!(text(v.into_iter().collect()), es, "owned");
        }
    }
    let ns: Vec<&str> = (0..s.size(4)).map(|_| *s.pick(&["accept", "Accept-Encoding", "x-a", "USER-agent"])).collect();
    let w = s.bool();
    s.dbg("names", (&ns, w));
    let mut v = Vary::new();
    ck!(!v.wildcard() && v.iter().count() == 0, "a new Vary says something");
    for n in &ns {
        v.push(*n).map_err(|e| e.to_string())?;
    }
    v.set_wildcard(w);
    let es: Vec<String> = ns.iter().map(|n| n.to_ascii_lowercase()).collect();
    let mut all = es.clone();
    if w {
        all.push("*".into());
    }
    eqv!(v.header_value().as_str(), all.join(", ").as_str(), "written");
    let mut h = old(s, "vary");
    v.apply_header(&mut h);
    let v = Vary::from_headers(&h).map_err(|e| e.to_string())?.ok_or("gone")?;
    eqv!((text(v.iter().cloned().collect()), v.wildcard()), (es, w), "read back");
    Ok(())
}
const URLS: &[&str] = &["https://example.net/", "http://a.b:81/c/d?e=f#g", "file:///x/y", "data:text/plain,x", "https://[::1]/%20?q=a%2Cb", "ftp://u:p@h/"];
const REFS: &[&str] = &["/p", "p/q", "../x", "?q", "#f", "//other/x", "", " ", "https://", "http://[", "mailto:a@b", " /sp ", "\t../t?x=y\t", " https://sp.net/ ", "https://x.y/ z", "a b", ":80"];
fn url(s: &mut Src) -> String {
    if s.bool() { s.pick(URLS).to_string() } else { s.pick(REFS).to_string() }
}
fn resolved(base: &str, t: &str) -> Option<Url> {
    Url::parse(t).ok().or_else(|| Url::parse(base).ok().and_then(|b| b.join(t.trim()).ok()))
}
fn links(s: &mut Src) -> R {
    let ls: Vec<String> = (0..s.size(2)).map(|_| url(s)).collect();
    let base = if s.one_in(8) { url(s) } else { s.pick(URLS).to_string() };
    s.dbg("lines", &ls);
    s.dbg("base", &base);
    let u = Url::parse(*s.pick(URLS)).unwrap();
    let v = url(s);
    s.dbg("url", (u.as_str(), &v));
    macro_rules! link {
        ($t:ty, $name:literal) => {{
            let h = with($name, &ls);
            match (<$t>::from_headers(base.as_str(), &h), ls.last().map(|l| resolved(&base, l))) {
                (Ok(None), None) => {}
                (Ok(Some(x)), Some(Some(w))) => eqv!(x.location(), &w, $name),
                (Err(e), Some(None)) => eqv!(u16::from(e.status()), 500, $name),
                (g, w) => ck!(false, "{}: got {:?}, expected {:?}", $name, g.map_err(|e| e.to_string()), w),
            }
            let mut x = <$t>::new(u.clone());
            eqv!(x.location(), &u, concat!($name, " set"));
            let mut h = old(s, $name);
            x.apply_header(&mut h);
            eqv!(h.get($name).map(|v| v.as_str()), Some(u.as_str()), concat!($name, " written"));
            let y = <$t>::from_headers("https://else.where/", &h).map_err(|e| e.to_string())?.ok_or("gone")?;
            eqv!(y.location(), &u, concat!($name, " read back"));
            let ok = x.set_location(v.as_str()).is_ok();
            eqv!((ok, x.location()), (Url::parse(&v).is_ok(), &Url::parse(&v).unwrap_or(u.clone())), concat!($name, " set_location"));
        }};
    }
    link!(Referer, "referer");
    link!(SourceMap, "sourcemap");
    let h = with("content-location", &ls);
    match (ContentLocation::from_headers(base.as_str(), &h), ls.last().map(|l| Url::parse(&base).ok().and_then(|b| b.join(l.trim()).ok()))) {
        (Ok(None), None) => {}
        (Ok(Some(x)), Some(Some(w))) => eqv!(x.location(), &w, "content-location"),
        (Err(e), Some(None)) => eqv!(u16::from(e.status()), 400, "content-location"),
        (g, w) => ck!(false, "content-location: got {:?}, expected {:?}", g.map_err(|e| e.to_string()), w),
    }
    let mut x = ContentLocation::new(u.clone());
    eqv!(x.location(), &u, "content-location set");
    let mut h = old(s, "content-location");
    x.apply_header(&mut h);
    eqv!(h.get("content-location").map(|v| v.as_str()), Some(u.as_str()), "content-location written");
    let y = ContentLocation::from_headers("https://else.where/", &h).map_err(|e| e.to_string())?.ok_or("gone")?;
    eqv!(y.location(), &u, "content-location read back");
    if let Ok(w) = Url::parse(&v) {
        x.set_location(v.as_str());
        eqv!(x.location(), &w, "content-location set_location");
    }
    Ok(())
}
fn short(s: &mut Src) -> R {
    let ls: Vec<String> = (0..s.size(2))
        .map(|_| match s.below(4) {
            0 => mutate(s, "100-continue"),
            1 => s.pick::<&str>(&["", "100-Continue", " 100-continue", "100-continue, x", "200-ok"]).to_string(),
            _ => "100-continue".into(),
        })
        .filter(|l| l.is_ascii())
        .collect();
    s.dbg("expect", &ls);
    match (Expect::from_headers(with("expect", &ls)), ls.last().map(|l| l == "100-continue")) {
        (Ok(None), None) | (Ok(Some(_)), Some(true)) => {}
        (Err(e), Some(false)) => eqv!(u16::from(e.status()), 400, "expect"),
        (g, w) => ck!(false, "expect: got {:?}, expected {:?}", g.map_err(|e| e.to_string()), w),
    }
    let mut h = old(s, "expect");
    Expect::new().apply_header(&mut h);
    eqv!(h.get("expect").map(|v| v.as_str()), Some("100-continue"), "expect written");
    let ls: Vec<String> = (0..s.size(2)).map(|_| mime_text(s)).filter(|t| t.is_ascii()).collect();
    s.dbg("content-type", &ls);
    match (ContentType::from_headers(with("content-type", &ls)), ls.last().map(|l| Mime::from_str(l).ok())) {
        (Ok(None), None) => {}
        (Ok(Some(t)), Some(Some(m))) => {
            ck!(t == m, "content-type read as {:?}", t);
            let u = ContentType::new(m.clone());
            ck!(u == m, "content-type made as {:?}", u);
            let text = m.to_string();
            if text.is_ascii() {
                let mut h = old(s, "content-type");
                u.apply_header(&mut h);
                eqv!(h.get("content-type").map(|v| v.as_str()), Some(text.as_str()), "content-type written");
                let back = ContentType::from_headers(&h).map_err(|e| e.to_string())?.ok_or("gone")?;
                ck!(back == m, "content-type read back as {:?}", back);
                ck!(ContentType::from(m.clone()) == &m, "content-type from");
            }
        }
        (Err(e), Some(None)) => eqv!(u16::from(e.status()), 400, "content-type"),
        (g, w) => ck!(false, "content-type: got {:?}, expected {:?}", g.map_err(|e| e.to_string()), w),
    }
    Ok(())
}
pub fn contracts() -> Vec<C> {
    vec![
        C { id: "plain.allow", clause: "Allow is the set of methods its lines list and reads back", how: How::Rand(40_000), f: allow },
        C { id: "plain.vary", clause: "Vary is the names its lines list and the wildcard, and reads back", how: How::Rand(40_000), f: vary },
        C { id: "plain.links", clause: "Referer, SourceMap and Content-Location resolve and read back", how: How::Rand(20_000), f: links },
        C { id: "plain.short", clause: "Expect and Content-Type are read exactly and read back", how: How::Rand(40_000), f: short },
    ]
}
