use crate::core::*;
use crate::p02::mutate;
use crate::{ck, eqv};
use http_types::mime::{self, Mime};
use http_types::{Body, Request, Response};
use std::str::FromStr;

/// What a media type text denotes, written from the WHATWG definition.
#[derive(Debug, Clone, PartialEq)]
pub struct Mt {
    pub base: String,
    pub sub: String,
    pub params: Vec<(String, String)>,
}
fn token(c: char) -> bool {
    c.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(c)
}
fn ws(c: char) -> bool {
    "\n\r\t ".contains(c)
}
fn qtok(c: char) -> bool {
    let u = c as u32;
    u == 9 || (0x20..=0x7e).contains(&u) || (0x80..=0xff).contains(&u)
}
pub fn reference(t: &str) -> Option<Mt> {
    let v: Vec<char> = t.chars().collect();
    let mut a = 0;
    let mut z = v.len();
    while a < z && ws(v[a]) {
        a += 1;
    }
    while z > a && ws(v[z - 1]) {
        z -= 1;
    }
    let v = &v[a..z];
    let n = v.len();
    let mut p = 0;
    let mut base = String::new();
    while p < n && v[p] != '/' {
        base.push(v[p]);
        p += 1;
    }
    if base.is_empty() || !base.chars().all(token) || p >= n {
        return None;
    }
    p += 1;
    let mut sub = String::new();
    while p < n && v[p] != ';' {
        sub.push(v[p]);
        p += 1;
    }
    while sub.ends_with(ws) {
        sub.pop();
    }
    if sub.is_empty() || !sub.chars().all(token) {
        return None;
    }
    let mut m = Mt { base: base.to_ascii_lowercase(), sub: sub.to_ascii_lowercase(), params: vec![] };
    while p < n {
        p += 1;
        while p < n && ws(v[p]) {
            p += 1;
        }
        let mut name = String::new();
        while p < n && v[p] != ';' && v[p] != '=' {
            name.push(v[p].to_ascii_lowercase());
            p += 1;
        }
        if p >= n {
            break;
        }
        if v[p] == ';' {
            continue;
        }
        p += 1;
        let mut val = String::new();
        if p < n && v[p] == '"' {
            p += 1;
            loop {
                if p >= n {
                    break;
                }
                let c = v[p];
                p += 1;
                if c == '"' {
                    break;
                }
                if c == '\\' {
                    if p < n {
                        val.push(v[p]);
                        p += 1;
                    } else {
                        val.push('\\');
                        break;
                    }
                } else {
                    val.push(c);
                }
            }
            while p < n && v[p] != ';' {
                p += 1;
            }
        } else {
            while p < n && v[p] != ';' {
                val.push(v[p]);
                p += 1;
            }
            while val.ends_with(ws) {
                val.pop();
            }
            if val.is_empty() {
                continue;
            }
        }
        if !name.is_empty() && name.chars().all(token) && val.chars().all(qtok) && !m.params.iter().any(|x| x.0 == name) {
            m.params.push((name, val));
        }
    }
    Some(m)
}

const NAMES: &[&str] = &["charset", "boundary", "q", "a", "A", "Charset", "b-1", "é", ""];
const VALS: &[&str] = &["utf-8", "UTF-8", "latin1", "x", "", "a b", "a\"b", "\\", "x;y", "x,y=z", "=", "\u{e9}", "\u{122}", "\u{1}", "\t"];

pub fn mime_text(s: &mut Src) -> String {
    let mut t = String::new();
    t.push_str(s.pick(&["", "", " ", "\t\n"]));
    t.push_str(s.pick(&["text", "application", "TEXT", "*", "x!", "a b", "", "é"]));
    t.push_str(s.pick(&["/", "/", "/", "/", "", " / "]));
    t.push_str(s.pick(&["html", "plain", "XML", "*", "rss+xml", "html ", "", "a/b", "h;"]));
    for _ in 0..s.size(3) {
        t.push_str(s.pick(&[";", ";", "; ", " ;", ";;"]));
        t.push_str(s.pick(NAMES));
        t.push_str(s.pick(&["=", "=", "=", "", " ="]));
        let v = *s.pick(VALS);
        match s.below(5) {
            0 | 1 => t.push_str(v),
            2 => {
                t.push('"');
                for c in v.chars() {
                    if c == '"' || c == '\\' || s.one_in(5) {
                        t.push('\\');
                    }
                    t.push(c);
                }
                t.push('"');
            }
            3 => t.push_str(&format!("\"{}", v)),
            _ => t.push_str(&format!("\"{}\"junk", v)),
        }
        t.push_str(s.pick(&["", "", " "]));
    }
    if s.one_in(6) {
        t = mutate(s, &t);
    }
    t
}

fn lookup<'a>(m: &'a Mt, n: &str) -> Option<&'a str> {
    m.params.iter().find(|x| x.0 == n).map(|x| x.1.as_str())
}

fn check(got: &Mime, m: &Mt, what: &str) -> R {
    eqv!(got.basetype(), m.base, "{} type", what);
    eqv!(got.subtype(), m.sub, "{} subtype", what);
    eqv!(got.essence(), format!("{}/{}", m.base, m.sub), "{} essence", what);
    for n in NAMES.iter().filter(|n| n.is_ascii()) {
        eqv!(got.param(*n).map(|v| v.as_str().to_string()), lookup(m, &n.to_ascii_lowercase()).map(String::from), "{} parameter {}", what, n);
    }
    for (n, v) in &m.params {
        eqv!(got.param(n.as_str()).map(|v| v.as_str().to_string()), Some(v.clone()), "{} parameter {}", what, n);
        let p = got.param(n.as_str()).unwrap();
        let other = format!("{}x", v);
        eqv!((*p == v.as_str(), *p == *v.as_str(), p.to_string() == *v), (true, true, true), "{} parameter {} as text", what, n);
        eqv!((*p == other.as_str(), *p == *other.as_str()), (false, false), "{} parameter {} against other text", what, n);
    }
    Ok(())
}

fn parsing(s: &mut Src) -> R {
    let t = if s.one_in(8) { s.any_str(20) } else { mime_text(s) };
    s.dbg("text", &t);
    let want = reference(&t);
    match (Mime::from_str(&t), want) {
        (Ok(got), Some(m)) => {
            check(&got, &m, "parsed")?;
            // serialising and parsing again changes nothing
            let shown = got.to_string();
            let again = Mime::from_str(&shown).map_err(|e| format!("{:?} does not parse: {}", shown, e))?;
            eqv!(again, got, "parse(serialise) of {:?}", shown);
            check(&again, &m, "reparsed")?;
            eqv!(again.to_string(), shown, "serialise twice");
            eqv!(reference(&shown).map(|r| r.params.len()), Some(m.params.len()), "parameters in {:?}", shown);
        }
        (Err(_), None) => {}
        (Ok(g), None) => return Err(format!("accepted as {:?}", g)),
        (Err(e), Some(m)) => return Err(format!("refused ({}), denotes {:?}", e, m)),
    }
    Ok(())
}

fn removing(s: &mut Src) -> R {
    let t = mime_text(s);
    let (mut got, mut m) = match (Mime::from_str(&t), reference(&t)) {
        (Ok(g), Some(m)) => (g, m),
        _ => return Ok(()),
    };
    s.dbg("text", &t);
    for _ in 0..1 + s.below(3) {
        let n = *s.pick(&["charset", "CHARSET", "a", "A", "boundary", "q", "b-1"]);
        s.note("remove", n);
        let r = got.remove_param(n).map(|v| v.as_str().to_string());
        eqv!(r, lookup(&m, &n.to_ascii_lowercase()).map(String::from), "removed {}", n);
        m.params.retain(|x| x.0 != n.to_ascii_lowercase());
        check(&got, &m, "after removal")?;
        // what is left keeps its order (a utf-8 charset is always written first)
        let order = |r: &Mt| {
            let utf8 = |x: &(String, String)| x.0 == "charset" && x.1 == "utf-8";
            let mut v: Vec<_> = r.params.iter().filter(|x| utf8(x)).cloned().collect();
            v.extend(r.params.iter().filter(|x| !utf8(x)).cloned());
            v
        };
        let shown = reference(&got.to_string()).ok_or("written text does not parse")?;
        eqv!(order(&shown), order(&m), "parameters left after removing {}", n);
    }
    Ok(())
}

fn subset(s: &mut Src) -> R {
    let simple = |s: &mut Src| {
        let mut t = format!("{}/{}", s.pick(&["text", "application", "*", "TEXT"]), s.pick(&["html", "json", "*", "*x"]));
        for _ in 0..s.size(2) {
            t.push_str(&format!(";{}={}", s.pick(&["charset", "a", "b"]), s.pick(&["utf-8", "latin1", "1", "2", "\"\""])));
        }
        t
    };
    let (a, b) = (simple(s), simple(s));
    s.dbg("a", &a);
    s.dbg("b", &b);
    let (ma, mb) = (Mime::from_str(&a).unwrap(), Mime::from_str(&b).unwrap());
    let (ra, rb) = (reference(&a).unwrap(), reference(&b).unwrap());
    let want = (rb.base == "*" || ra.base == rb.base) && (rb.sub == "*" || ra.sub == rb.sub) && rb.params.iter().all(|(n, v)| lookup(&ra, n) == Some(v));
    eqv!(ma.subset_eq(&mb), want, "{} subset of {}", a, b);
    eqv!(ma.subset_eq(&ma), true, "reflexive");
    eqv!(ma == mb, ra.base == rb.base && ra.sub == rb.sub && {
        let norm = |r: &Mt| {
            let utf8 = lookup(r, "charset") == Some("utf-8");
            (utf8, r.params.iter().filter(|x| !(utf8 && x.0 == "charset")).cloned().collect::<Vec<_>>())
        };
        norm(&ra) == norm(&rb)
    }, "equality");
    Ok(())
}

/// Predefined types and file extensions.
fn table(s: &mut Src) -> R {
    let consts: &[(Mime, &str)] = &[
        (mime::JAVASCRIPT, "text/javascript;charset=utf-8"), (mime::CSS, "text/css;charset=utf-8"), (mime::HTML, "text/html;charset=utf-8"),
        (mime::PLAIN, "text/plain;charset=utf-8"), (mime::XML, "application/xml;charset=utf-8"), (mime::RSS, "application/rss+xml;charset=utf-8"),
        (mime::ATOM, "application/atom+xml;charset=utf-8"), (mime::ANY, "*/*"), (mime::JSON, "application/json"), (mime::SSE, "text/event-stream"),
        (mime::BYTE_STREAM, "application/octet-stream"), (mime::FORM, "application/x-www-form-urlencoded"), (mime::MULTIPART_FORM, "multipart/form-data"),
        (mime::WASM, "application/wasm"), (mime::BMP, "image/bmp"), (mime::JPEG, "image/jpeg"), (mime::PNG, "image/png"), (mime::SVG, "image/svg+xml"),
        (mime::WEBP, "image/webp"), (mime::MIDI, "audio/midi"), (mime::MP3, "audio/mpeg"), (mime::OGG, "audio/ogg"), (mime::OPUS, "audio/opus"),
        (mime::M4A, "audio/mp4"), (mime::MP4, "video/mp4"), (mime::MPEG, "video/mpeg"), (mime::WEBM, "video/webm"), (mime::AVI, "video/x-msvideo"),
        (mime::ICO, "image/x-icon"), (mime::OTF, "font/otf"), (mime::TTF, "font/ttf"), (mime::WOFF, "font/woff"), (mime::WOFF2, "font/woff2"),
        (mime::ZIP, "application/zip"), (mime::SEVENZIP, "application/x-7z-compressed"),
    ];
    let exts: &[(&str, &str)] = &[
        ("7z", "application/x-7z-compressed"), ("atom", "application/atom+xml"), ("avi", "video/x-msvideo"), ("bin", "application/octet-stream"),
        ("exe", "application/octet-stream"), ("dll", "application/octet-stream"), ("iso", "application/octet-stream"), ("img", "application/octet-stream"),
        ("bmp", "image/bmp"), ("css", "text/css"), ("html", "text/html"), ("ico", "image/x-icon"), ("js", "text/javascript"), ("mjs", "text/javascript"),
        ("jsonp", "text/javascript"), ("json", "application/json"), ("m4a", "audio/mp4"), ("mid", "audio/midi"), ("midi", "audio/midi"), ("kar", "audio/midi"),
        ("mp3", "audio/mpeg"), ("mp4", "video/mp4"), ("mpeg", "video/mpeg"), ("mpg", "video/mpeg"), ("ogg", "audio/ogg"), ("otf", "font/otf"),
        ("rss", "application/rss+xml"), ("svg", "image/svg+xml"), ("svgz", "image/svg+xml"), ("ttf", "font/ttf"), ("txt", "text/plain"),
        ("wasm", "application/wasm"), ("webm", "video/webm"), ("webp", "image/webp"), ("woff", "font/woff"), ("woff2", "font/woff2"),
        ("xml", "application/xml"), ("zip", "application/zip"),
    ];
    let i = s.below(consts.len() + exts.len());
    if i < consts.len() {
        let (m, t) = &consts[i];
        s.note("type", t);
        eqv!(m.to_string(), *t, "text of the constant");
        eqv!(Mime::from_str(t).map_err(|e| e.to_string())?, *m, "parsed constant");
        check(m, &reference(t).unwrap(), "constant")?;
        let v: http_types::headers::HeaderValue = m.into();
        eqv!(v.as_str(), *t, "header value");
    } else {
        let (e, t) = exts[i - consts.len()];
        s.note("extension", e);
        eqv!(Mime::from_extension(e).map(|m| m.essence().to_string()), Some(t.to_string()), "type of .{}", e);
        ck!(Mime::from_extension(format!("{}~", e)).is_none(), "unknown extension");
    }
    Ok(())
}

/// A media type set on a message or body is the one read back.
fn carried(s: &mut Src) -> R {
    let t = mime_text(s);
    let m = match Mime::from_str(&t) {
        Ok(m) if m.to_string().is_ascii() => m,
        _ => return Ok(()),
    };
    s.dbg("text", &t);
    let mut res = Response::new(200);
    let old = res.content_type();
    let prev = res.set_content_type(m.clone());
    eqv!(prev.map(|v| v.as_str().to_string()), old.map(|v| v.to_string()), "previous type");
    eqv!(res.content_type(), Some(m.clone()), "response type");
    let mut req = Request::get("http://_/");
    req.set_content_type(m.clone());
    eqv!(req.content_type(), Some(m.clone()), "request type");
    let mut b = Body::from_string("x".into());
    b.set_mime(Some(m.clone()));
    eqv!(b.mime(), Some(&m), "body type");
    // a body's type is adopted only when the message has none of its own
    let mut r2 = Response::new(200);
    r2.remove_header("content-type");
    r2.set_body(b);
    eqv!(r2.content_type(), Some(m.clone()), "type adopted from the body");
    r2.set_body(Body::from_string("y".into()));
    eqv!(r2.content_type(), Some(m.clone()), "own type kept");
    Ok(())
}

pub fn contracts() -> Vec<C> {
    vec![
        C { id: "mime.parse", clause: "a text is a media type exactly when the WHATWG algorithm accepts it, with that type, subtype and parameters; serialising and parsing are inverse", how: How::Rand(60000), f: parsing },
        C { id: "mime.params", clause: "looking up and removing parameters", how: How::Rand(15000), f: removing },
        C { id: "mime.subset", clause: "subset_eq and equality", how: How::Rand(20000), f: subset },
        C { id: "mime.table", clause: "predefined types and file extensions", how: How::All(1000), f: table },
        C { id: "mime.carried", clause: "messages and bodies carry the media type they were given", how: How::Rand(8000), f: carried },
    ]
}
