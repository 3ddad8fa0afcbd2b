use crate::core::*;
use crate::{ck, eqv};
use http_types::headers::Header;
use http_types::proxies::Forwarded;
use http_types::{Method, Request, Response};
use std::convert::TryFrom;

#[derive(Debug, Clone, PartialEq, Default)]
struct Fw {
    by: Option<String>,
    fors: Vec<String>,
    host: Option<String>,
    proto: Option<String>,
}
fn of(f: &Forwarded<'_>) -> Fw {
    Fw {
        by: f.by().map(|s| s.to_string()),
        fors: f.forwarded_for().iter().map(|s| s.to_string()).collect(),
        host: f.host().map(|s| s.to_string()),
        proto: f.proto().map(|s| s.to_string()),
    }
}
pub fn tchar(c: char) -> bool {
    c.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(c)
}
/// token or quoted-string at `p`; the value and where it ends.
fn value(v: &[char], mut p: usize) -> Option<(String, usize)> {
    let mut o = String::new();
    if p < v.len() && v[p] == '"' {
        p += 1;
        loop {
            let c = *v.get(p)?;
            p += 1;
            match c {
                '"' => return Some((o, p)),
                '\\' => {
                    let d = *v.get(p)?;
                    p += 1;
                    let u = d as u32;
                    if !(u == 9 || (u >= 0x20 && u != 0x7f)) {
                        return None;
                    }
                    o.push(d);
                }
                c if c == '\t' || (c >= ' ' && c != '\u{7f}') => o.push(c),
                _ => return None,
            }
        }
    }
    while p < v.len() && tchar(v[p]) {
        o.push(v[p]);
        p += 1;
    }
    if o.is_empty() {
        None
    } else {
        Some((o, p))
    }
}
fn is_for(v: &[char], p: usize) -> bool {
    v.len() >= p + 4 && v[p].to_ascii_lowercase() == 'f' && v[p + 1].to_ascii_lowercase() == 'o' && v[p + 2].to_ascii_lowercase() == 'r' && v[p + 3] == '='
}
fn reference(t: &str) -> Option<Fw> {
    let v: Vec<char> = t.chars().collect();
    let mut f = Fw::default();
    let mut p = 0;
    while p < v.len() {
        if is_for(&v, p) {
            loop {
                if !is_for(&v, p) {
                    return None;
                }
                let (x, q) = value(&v, p + 4)?;
                f.fors.push(x);
                p = q;
                if p >= v.len() {
                    break;
                }
                p += 1;
                match v[p - 1] {
                    ';' => break,
                    ',' => {
                        while p < v.len() && v[p].is_whitespace() {
                            p += 1;
                        }
                    }
                    _ => return None,
                }
            }
        } else {
            let mut key = String::new();
            while p < v.len() && tchar(v[p]) {
                key.push(v[p]);
                p += 1;
            }
            if key.is_empty() || v.get(p) != Some(&'=') {
                return None;
            }
            let (x, q) = value(&v, p + 1)?;
            p = q;
            let slot = match key.as_str() {
                "by" => Some(&mut f.by),
                "host" => Some(&mut f.host),
                "proto" => Some(&mut f.proto),
                _ => None,
            };
            if let Some(slot) = slot {
                if slot.is_some() {
                    return None;
                }
                *slot = Some(x);
            }
            if v.get(p) == Some(&';') {
                p += 1;
            }
        }
    }
    Some(f)
}
const FR: &[&str] = &[
    "for=", "For=", "by=", "host=", "proto=", "for", "=", "a", "1.2.3.4", "\"", "\\", "\"[::1]\"", "\"a b\"", "\"\\\"\"", "\"\\\\\"", "\"\"", ",", ", ", ";", "; ", " ", "x=", "https", "_hidden", "\u{e9}", "\u{1F600}", "!", "\t", "\u{1}", "BY=", "\"a\\", "@", "\u{7f}",
];
fn text(s: &mut Src) -> String {
    if s.one_in(3) {
        let mut t = String::new();
        let repeated = *s.pick(&["by=", "host=", "proto="]);
        for _ in 0..s.size(4) {
            t.push_str(if s.one_in(3) { repeated } else { *s.pick(&["for=", "by=", "host=", "proto=", "ext=", "FOR="]) });
            t.push_str(&val(s));
            t.push_str(s.pick::<&str>(&[";", ";", ";", ";", ",", ", ", ",\t", "", " "]));
        }
        if s.one_in(3) {
            t = crate::p02::mutate(s, &t);
        }
        t
    } else {
        s.frags(FR, 10)
    }
}
fn val(s: &mut Src) -> String {
    if s.one_in(4) {
        s.pick::<&str>(&["https", "http", "example.com", "192.0.2.1", "unknown", "\"[::1]:80\"", "_hidden"]).to_string()
    } else if s.bool() {
        s.str_of(&['a', '1', '.', '_', '!', '~'], 3)
    } else {
        let mut o = String::from("\"");
        for _ in 0..s.size(4) {
            o.push_str(s.pick::<&str>(&["a", ";", ",", "\\\"", "\\\\", "\\a", " ", "=", "!", "[", "]", "\u{e9}", "\\\u{1F600}", "#", "~"]));
        }
        o.push('"');
        o
    }
}
fn parse(s: &mut Src) -> R {
    let t = text(s);
    s.dbg("text", &t);
    let want = reference(&t);
    let got = Forwarded::parse(&t);
    eqv!(got.as_ref().ok().map(of), want, "parse({:?})", t);
    eqv!(Forwarded::try_from(t.as_str()).ok().map(|f| of(&f)), want, "try_from({:?})", t);
    if let Ok(f) = got {
        let owned = f.clone().into_owned();
        eqv!(of(&owned), want.clone().unwrap(), "into_owned of {:?}", t);
        ck!(owned == f, "into_owned of {:?} differs", t);
    }
    if t.is_ascii() {
        let mut r = Request::new(Method::Get, "http://a/");
        r.insert_header("forwarded", t.as_str());
        r.insert_header("x-forwarded-for", "9.9.9.9");
        let a = Forwarded::from_headers(&r);
        let b = Forwarded::from_forwarded_header(&r);
        match &want {
            None => ck!(a.is_err() && b.is_err(), "header {:?} accepted", t),
            Some(w) => {
                eqv!(a.ok().flatten().map(|f| of(&f)).as_ref(), Some(w), "from_headers of {:?}", t);
                eqv!(b.ok().flatten().map(|f| of(&f)).as_ref(), Some(w), "from_forwarded_header of {:?}", t);
            }
        }
    }
    Ok(())
}
fn build(s: &mut Src) -> R {
    let word = |s: &mut Src| -> String {
        match s.choose(3) {
            0 => s.str_of(&['a', 'Z', '1', '.', '_', '!', '~', '-'], 4),
            1 => s.str_of(&['a', '"', '\\', ' ', ';', ',', '=', '[', ']', ':', '\t', '@', '/', '{'], 5),
            _ => {
                let n = s.below(5);
                (0..n).map(|_| char::from_u32(0x20 + s.choose(0x5f) as u32).unwrap()).collect()
            }
        }
    };
    let mut f = Forwarded::new();
    let mut w = Fw::default();
    eqv!(of(&f), w, "new");
    for _ in 0..s.size(4) {
        let v = word(s);
        match s.choose(4) {
            0 => {
                f.set_by(v.clone());
                w.by = Some(v);
            }
            1 => {
                f.set_host(v.clone());
                w.host = Some(v);
            }
            2 => {
                f.set_proto(v.clone());
                w.proto = Some(v);
            }
            _ => {
                f.add_for(v.clone());
                w.fors.push(v);
            }
        }
    }
    s.dbg("fields", &w);
    eqv!(of(&f), w, "fields as set");
    let t = f.header_value().as_str().to_string();
    eqv!(reference(&t), Some(w.clone()), "meaning of the text written, {:?}", t);
    let back = Forwarded::parse(&t).map_err(|e| format!("own output {:?} refused: {}", t, e))?;
    ck!(back == f, "read back {:?} from {:?}", back, t);
    eqv!(f.to_string(), t, "to_string");
    eqv!(f.header_name().as_str(), "forwarded", "header name");
    let mut r = Response::new(200);
    if s.bool() {
        r.append_header("forwarded", "for=older");
    }
    f.apply_header(&mut r);
    eqv!(Forwarded::from_headers(&r).map_err(|e| e.to_string())?.map(|f| of(&f)), Some(w), "set on a message and read back");
    Ok(())
}
fn xheaders(s: &mut Src) -> R {
    let mut r = Request::new(Method::Get, "http://a/");
    let mut w = Fw::default();
    let mut any = false;
    for k in 0..4 {
        if !s.bool() {
            continue;
        }
        any = true;
        let t = if k == 0 {
            let n = 1 + s.below(3);
            let mut l = vec![];
            for _ in 0..n {
                l.push(format!("{}{}{}", s.pick(&["", " ", "\t"]), s.pick(&["1.2.3.4", "::1", "2001:db8:cafe::17", "unknown", "", "[::1]", "::ffff:1.2.3.4", "a b"]), s.pick(&["", " "])));
            }
            l.join(",")
        } else {
            s.pick(&["", "https", "a, b", "x;y=z", "\"q\""]).to_string()
        };
        let name = ["x-forwarded-for", "x-forwarded-by", "x-forwarded-proto", "X-Forwarded-Host"][k];
        s.dbg(name, &t);
        r.insert_header(name, t.as_str());
        match k {
            0 => {
                w.fors = t
                    .split(',')
                    .map(|x| {
                        let x = x.trim();
                        match x.parse::<std::net::Ipv6Addr>() {
                            Ok(a) => format!("[{}]", a),
                            _ => x.to_string(),
                        }
                    })
                    .collect()
            }
            1 => w.by = Some(t),
            2 => w.proto = Some(t),
            _ => w.host = Some(t),
        }
    }
    let want = if any { Some(w) } else { None };
    eqv!(Forwarded::from_headers(&r).map_err(|e| e.to_string())?.map(|f| of(&f)), want, "from_headers without a Forwarded header");
    eqv!(Forwarded::from_x_headers(&r).map_err(|e| e.to_string())?.map(|f| of(&f)), want, "from_x_headers");
    ck!(Forwarded::from_forwarded_header(&r).map_err(|e| e.to_string())?.is_none(), "from_forwarded_header found a header");
    if let Some(w) = want {
        let f = Forwarded::from_headers(&r).unwrap().unwrap();
        let t = f.header_value().as_str().to_string();
        eqv!(reference(&t), Some(w), "normalised to {:?}", t);
    }
    Ok(())
}
pub fn contracts() -> Vec<C> {
    vec![
        C { id: "fwd.parse", clause: "parse/from_headers: exactly the grammar, its values", how: How::Rand(200_000), f: parse },
        C { id: "fwd.build", clause: "header_value: read back as the fields written", how: How::Rand(60_000), f: build },
        C { id: "fwd.xheaders", clause: "from_x_headers and its precedence", how: How::Rand(20_000), f: xheaders },
    ]
}
