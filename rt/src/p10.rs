use crate::core::*;
use crate::p09::with;
use crate::{ck, eqv};
use http_types::conditional::{ETag, IfMatch, IfNoneMatch};
use http_types::headers::Header;
use http_types::{Request, Response, StatusCode};

type Tag = (bool, String);
fn val(t: &ETag) -> Tag {
    match t {
        ETag::Strong(s) => (false, s.clone()),
        ETag::Weak(s) => (true, s.clone()),
    }
}
fn ref_tag(s: &str) -> Option<Tag> {
    let cs: Vec<char> = s.chars().collect();
    let (weak, from) = if cs.len() >= 2 && cs[0] == 'W' && cs[1] == '/' { (true, 2) } else { (false, 0) };
    let b = &cs[from..];
    if b.len() < 2 || b[0] != '"' || b[b.len() - 1] != '"' {
        return None;
    }
    let t = &b[1..b.len() - 1];
    if t.iter().any(|c| !(*c == '!' || ('#'..='~').contains(c) || *c as u32 >= 0x80)) {
        return None;
    }
    Some((weak, t.iter().collect()))
}
fn ref_list(lines: &[String]) -> Option<(bool, Vec<Tag>)> {
    let mut any = false;
    let mut out = vec![];
    for l in lines {
        let mut el = String::new();
        let mut els = vec![];
        let mut q = false;
        for c in l.chars() {
            if c == ',' && !q {
                els.push(std::mem::take(&mut el));
                continue;
            }
            if c == '"' {
                q = !q;
            }
            el.push(c);
        }
        els.push(el);
        for e in els {
            match e.trim() {
                "" => {}
                "*" => any = true,
                t => out.push(ref_tag(t)?),
            }
        }
    }
    Some((any, out))
}
fn tag_text(s: &mut Src) -> String {
    let mut o = String::new();
    o.push_str(s.pick::<&str>(&["", "", "", "W/", "W/", "w/", "W", "/", "W/W/", " ", "\\"]));
    o.push_str(s.pick::<&str>(&["\"", "\"", "\"", "\"", "\"", "", "'", "\"\""]));
    o.push_str(&s.frags(&["a", "0xcafe", "!", "#", "~", " ", ",", "\"", "\\", "\u{7f}", "W/", "*", "[", "\u{1f}", ";"], 4));
    o.push_str(s.pick::<&str>(&["\"", "\"", "\"", "\"", "\"", "", "\"\"", "\" "]));
    o
}
fn lines_of(s: &mut Src) -> Vec<String> {
    (0..1 + s.below(3))
        .map(|_| {
            let mut o = String::new();
            for i in 0..s.size(4) {
                if i > 0 {
                    o.push_str(s.pick::<&str>(&[",", ", ", " , ", ",,", ", ,", "\t,", " ", ";"]));
                }
                match s.below(8) {
                    0 => o.push('*'),
                    1 => {}
                    2 => o.push_str(s.pick::<&str>(&["\"a,b\"", "W/\"a, *,b\"", "\",\"", "**", "\"*\""])),
                    3 => o.push_str(&tag_text(s)),
                    _ => o.push_str(s.pick::<&str>(&["\"a\"", "W/\"b\"", "\"\"", "\"0xcafebeef\""])),
                }
            }
            s.padded(&o)
        })
        .collect()
}
fn single(s: &mut Src) -> R {
    let n = 1 + s.below(2);
    let ls: Vec<String> = (0..n).map(|_| { let t = tag_text(s); if s.one_in(4) { s.padded(&t) } else { t } }).collect();
    s.dbg("ETag", &ls);
    match (ETag::from_headers(with("etag", &ls)), ref_tag(ls.last().unwrap())) {
        (Ok(Some(t)), Some(w)) => {
            eqv!(val(&t), w, "tag read");
            eqv!((t.is_weak(), t.is_strong()), (w.0, !w.0), "strength");
            eqv!(t.header_value().as_str(), format!("{}\"{}\"", if w.0 { "W/" } else { "" }, w.1), "tag written");
            eqv!(t.to_string(), t.header_value().as_str(), "tag displayed");
        }
        (Err(e), None) => eqv!(e.status(), StatusCode::BadRequest, "status of a malformed tag"),
        (g, w) => return Err(format!("tag: got {:?}, contract says {:?}", g.ok(), w)),
    }
    Ok(())
}
macro_rules! list {
    ($f:ident, $T:ident, $name:expr) => {
        fn $f(s: &mut Src) -> R {
            let ls = lines_of(s);
            s.dbg($name, &ls);
            match ($T::from_headers(with($name, &ls)), ref_list(&ls)) {
                (Ok(Some(mut l)), Some((any, ts))) => {
                    eqv!(l.wildcard(), any, "wildcard");
                    eqv!(l.iter().map(val).collect::<Vec<_>>(), ts, "tags read");
                    eqv!(l.iter_mut().map(|t| val(t)).collect::<Vec<_>>(), ts, "tags listed mutably");
                    let v = l.header_value().as_str().to_string();
                    let b = $T::from_headers(with($name, &[v.clone()])).map_err(|e| format!("{} written as {:?} is refused: {}", $name, v, e))?.unwrap();
                    eqv!((b.wildcard(), b.iter().map(val).collect::<Vec<_>>()), (any, ts.clone()), "list written as {:?} and read back", v);
                    eqv!((&l).into_iter().map(val).collect::<Vec<_>>(), ts, "tags listed");
                    eqv!((&mut l).into_iter().map(|t| val(t)).collect::<Vec<_>>(), ts, "tags listed mutably");
                    let (lo, hi) = l.iter().size_hint();
                    ck!(lo <= ts.len() && hi.map_or(true, |h| h >= ts.len()), "size hint {:?} for {} tags", (lo, hi), ts.len());
                    eqv!(l.into_iter().map(|t| val(&t)).collect::<Vec<_>>(), ts, "tags consumed");
                }
                (Err(e), None) => eqv!(e.status(), StatusCode::BadRequest, "status of a malformed list"),
                (g, w) => return Err(format!("list: got {:?}, contract says {:?}", g.map(|l| l.map(|l| (l.wildcard(), l.iter().map(val).collect::<Vec<_>>()))).map_err(|e| e.to_string()), w)),
            }
            Ok(())
        }
    };
}
list!(if_match, IfMatch, "if-match");
list!(if_none_match, IfNoneMatch, "if-none-match");
fn opaque(s: &mut Src) -> String {
    let n = s.size(5);
    (0..n)
        .map(|_| loop {
            let c = char::from_u32(0x21 + s.choose(0x7e - 0x20) as u32).unwrap();
            if c != '"' && c != '\\' {
                break c;
            }
        })
        .collect()
}
fn built(s: &mut Src) -> R {
    let n = s.size(11);
    let mut m = IfMatch::new();
    let mut nm = IfNoneMatch::new();
    eqv!((m.wildcard(), nm.wildcard()), (false, false), "wildcard of a new list");
    let mut ts = vec![];
    for _ in 0..n {
        let t = if s.one_in(4) { ["a,b", ", ", ",*,", "W/"][s.below(4)].replace(' ', "") } else { opaque(s) };
        let weak = s.bool();
        let e = if weak { ETag::new_weak(t.clone()) } else { ETag::new(t.clone()) };
        m.push(e.clone());
        nm.push(e);
        ts.push((weak, t));
    }
    let any = s.bool();
    m.set_wildcard(any);
    nm.set_wildcard(any);
    s.dbg("tags", &ts);
    s.dbg("wildcard", any);
    let mut q = Request::new(http_types::Method::Get, "http://example.com/");
    if s.bool() {
        q.append_header("if-match", "\"older\"");
        q.append_header("if-none-match", "*");
    }
    m.apply_header(&mut q);
    nm.apply_header(&mut q);
    let m2 = IfMatch::from_headers(&q).map_err(|e| format!("If-Match {} is refused: {}", m.header_value(), e))?.ok_or("If-Match was not set")?;
    let n2 = IfNoneMatch::from_headers(&q).map_err(|e| format!("If-None-Match {} is refused: {}", nm.header_value(), e))?.ok_or("If-None-Match was not set")?;
    eqv!((m2.wildcard(), m2.iter().map(val).collect::<Vec<_>>()), (any, ts.clone()), "If-Match {} read back", m.header_value());
    eqv!((n2.wildcard(), n2.iter().map(val).collect::<Vec<_>>()), (any, ts.clone()), "If-None-Match {} read back", nm.header_value());
    for t in &ts {
        let e = if t.0 { ETag::new_weak(t.1.clone()) } else { ETag::new(t.1.clone()) };
        let mut r = Response::new(200);
        e.apply_header(&mut r);
        let b = ETag::from_headers(&r).map_err(|e| format!("ETag {:?} is refused: {}", t, e))?;
        eqv!(b, Some(e), "ETag read back");
    }
    Ok(())
}
fn absent(_: &mut Src) -> R {
    ck!(matches!(ETag::from_headers(hs()), Ok(None)), "ETag without the header");
    ck!(matches!(IfMatch::from_headers(hs()), Ok(None)), "If-Match without the header");
    ck!(matches!(IfNoneMatch::from_headers(hs()), Ok(None)), "If-None-Match without the header");
    Ok(())
}
pub fn contracts() -> Vec<C> {
    vec![
        C { id: "etag.single", clause: "ETag::from_headers reads exactly the grammar, and writes it back", how: How::Rand(60_000), f: single },
        C { id: "etag.ifmatch", clause: "IfMatch::from_headers and header_value against the reference (bounded stand-in for ETag::split_list)", how: How::Rand(40_000), f: if_match },
        C { id: "etag.ifnonematch", clause: "IfNoneMatch::from_headers and header_value against the reference", how: How::Rand(40_000), f: if_none_match },
        C { id: "etag.built", clause: "lists and tags built in code are read back from a message", how: How::Rand(20_000), f: built },
        C { id: "etag.absent", clause: "an absent header is None", how: How::All(1), f: absent },
    ]
}
