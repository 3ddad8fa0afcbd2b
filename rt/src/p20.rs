use crate::core::*;
use crate::p17::body;
use crate::{ck, eqv};
use futures_lite::future::block_on;
use http_types::headers::{HeaderName, HeaderValue, Headers};
use http_types::{Body, Method, Request, Response, StatusCode, Url, Version};
use std::collections::BTreeMap;
use std::convert::{TryFrom, TryInto};
use std::str::FromStr;

type Hs = BTreeMap<String, Vec<String>>;
fn dump(h: &Headers) -> Hs {
    h.iter().map(|(n, v)| (n.as_str().to_string(), v.iter().map(|x| x.as_str().to_string()).collect())).filter(|(_, v): &(String, Vec<String>)| !v.is_empty()).collect()
}
fn dump_http(h: &http::HeaderMap) -> BTreeMap<String, Vec<Vec<u8>>> {
    h.keys().map(|k| (k.as_str().to_string(), h.get_all(k).iter().map(|v| v.as_bytes().to_vec()).collect())).collect()
}
fn bytes(h: &Hs) -> BTreeMap<String, Vec<Vec<u8>>> {
    h.iter().map(|(k, v)| (k.clone(), v.iter().map(|x| x.clone().into_bytes()).collect())).collect()
}
/// What http itself accepts as a header name; every RFC 9110 token is among it.
fn is_token(t: &str) -> bool {
    http::header::HeaderName::from_bytes(t.as_bytes()).is_ok()
}
fn is_sendable(t: &[u8]) -> bool {
    t.iter().all(|&c| c == 9 || (c >= 32 && c != 127))
}
const NAMES: &[&str] = &["a", "X-A", "content-type", "Set-Cookie", "x~!", "host"];

/// Headers in wire form and their model.
fn headers(s: &mut Src, h: &mut Headers, m: &mut Hs) {
    for _ in 0..s.size(4) {
        let n = *s.pick(NAMES);
        let v: String = s.ascii_str(5).chars().filter(|c| is_sendable(&[*c as u8])).collect();
        s.note("header", &format!("{}: {:?}", n, v));
        if s.bool() {
            let _ = h.append(n, v.as_str());
            m.entry(n.to_ascii_lowercase()).or_default().push(v);
        } else {
            let _ = h.insert(n, v.as_str());
            m.insert(n.to_ascii_lowercase(), vec![v]);
        }
    }
}
fn http_headers(s: &mut Src, h: &mut http::HeaderMap, m: &mut Hs) -> bool {
    let mut ascii = true;
    for _ in 0..s.size(5) {
        let n = http::header::HeaderName::from_str(s.pick(NAMES)).unwrap();
        let mut v: Vec<u8> = s.ascii_str(4).bytes().filter(|c| is_sendable(&[*c])).collect();
        if s.one_in(12) {
            v.push(0x80 + s.below(0x80) as u8);
            ascii = false;
        }
        s.note("header", &format!("{}: {:?}", n, v));
        let t: String = v.iter().map(|b| *b as char).collect();
        h.append(&n, http::header::HeaderValue::from_bytes(&v).unwrap());
        m.entry(n.as_str().to_string()).or_default().push(t);
    }
    ascii
}
const VERSIONS: &[(Version, http::Version)] = &[
    (Version::Http0_9, http::Version::HTTP_09),
    (Version::Http1_0, http::Version::HTTP_10),
    (Version::Http1_1, http::Version::HTTP_11),
    (Version::Http2_0, http::Version::HTTP_2),
    (Version::Http3_0, http::Version::HTTP_3),
];
fn versions(s: &mut Src) -> R {
    let (a, b) = *s.pick(VERSIONS);
    s.dbg("version", &a);
    eqv!(http::Version::from(a), b, "version to http");
    eqv!(Version::from(b), a, "version from http");
    Ok(())
}
fn methods(s: &mut Src) -> R {
    let m = s.pick(crate::p02::METHODS).1;
    s.dbg("method", &m);
    let h = http::Method::from(m);
    eqv!(h.as_str(), m.to_string().as_str(), "method to http");
    eqv!(Method::from(h), m, "method to http and back");
    let low = m.to_string().to_ascii_lowercase();
    let odd = http::Method::from_bytes(low.as_bytes()).map_err(|e| e.to_string())?;
    eqv!(Method::from(odd), m, "method from http in lower case");
    Ok(())
}
fn statuses(s: &mut Src) -> R {
    let n = 100 + s.below(900) as u16;
    s.dbg("status", &n);
    let h = http::StatusCode::from_u16(n).map_err(|e| e.to_string())?;
    let known = crate::p01::TABLE.iter().any(|t| t.0 == n);
    if known {
        let ours = StatusCode::from(h);
        eqv!(u16::from(ours), n, "status from http");
        eqv!(http::StatusCode::from(ours), h, "status to http");
    }
    let mut r = http::Response::new(Body::empty());
    *r.status_mut() = h;
    match Response::try_from(r) {
        Ok(x) => ck!(known && u16::from(x.status()) == n, "response with status {} taken as {}", n, x.status()),
        Err(_) => ck!(!known, "response with status {} refused", n),
    }
    Ok(())
}
fn names(s: &mut Src) -> R {
    let t: String = if s.bool() { s.ascii_str(6) } else { s.str_of(&['a', 'Z', '-', '_', '~', '!', '0', ' ', ':', '(', '@', '\u{7f}', '^', '`', '|'], 6) };
    s.note("name", &format!("{:?}", t));
    let n = HeaderName::from_str(&t).map_err(|e| e.to_string())?;
    match TryInto::<http::header::HeaderName>::try_into(n.clone()) {
        Ok(h) => {
            ck!(is_token(&t), "name {:?} accepted by http", t);
            eqv!(h.as_str(), t.to_ascii_lowercase().as_str(), "name to http");
            eqv!(HeaderName::try_from(h).map_err(|e| e.to_string())?, n, "name to http and back");
        }
        Err(_) => ck!(!is_token(&t), "name {:?} refused", t),
    }
    Ok(())
}
fn values(s: &mut Src) -> R {
    let t = s.ascii_str(6);
    s.note("value", &format!("{:?}", t));
    let v = HeaderValue::from_str(&t).map_err(|e| e.to_string())?;
    match TryInto::<http::header::HeaderValue>::try_into(v) {
        Ok(h) => {
            ck!(is_sendable(t.as_bytes()), "value {:?} accepted by http", t);
            eqv!(h.as_bytes(), t.as_bytes(), "value to http");
        }
        Err(_) => ck!(!is_sendable(t.as_bytes()), "value {:?} refused", t),
    }
    let b: Vec<u8> = (0..s.size(4)).map(|_| s.below(256) as u8).filter(|c| is_sendable(&[*c])).collect();
    s.dbg("bytes", &b);
    let h = http::header::HeaderValue::from_bytes(&b).map_err(|e| e.to_string())?;
    match HeaderValue::try_from(h) {
        Ok(v) => ck!(b.is_ascii() && v.as_str().as_bytes() == &b[..], "value {:?} became {:?}", b, v.as_str()),
        Err(_) => ck!(!b.is_ascii(), "value {:?} refused", b),
    }
    Ok(())
}
fn maps(s: &mut Src) -> R {
    let (mut h, mut m) = (hs(), Hs::new());
    headers(s, &mut h, &mut m);
    let out = http::HeaderMap::try_from(h).map_err(|e| e.to_string())?;
    eqv!(dump_http(&out), bytes(&m), "headers to http");
    eqv!(dump(&Headers::try_from(out).map_err(|e| e.to_string())?), m, "headers to http and back");
    let (mut h, mut m) = (http::HeaderMap::new(), Hs::new());
    let ascii = http_headers(s, &mut h, &mut m);
    match Headers::try_from(h) {
        Ok(x) => {
            ck!(ascii, "a value that is not ASCII was accepted");
            eqv!(dump(&x), m, "headers from http");
        }
        Err(_) => ck!(!ascii, "ASCII headers refused"),
    }
    // one bad header anywhere refuses the map
    let (mut h, mut m) = (hs(), Hs::new());
    headers(s, &mut h, &mut m);
    let _ = h.append(*s.pick(&["a b", "", "a:"]), "v");
    ck!(http::HeaderMap::try_from(h).is_err(), "a name that is no token was accepted");
    let (mut h, mut m) = (hs(), Hs::new());
    headers(s, &mut h, &mut m);
    let _ = h.append("x-z", *s.pick(&["a\nb", "\0", "\u{7f}"]));
    ck!(http::HeaderMap::try_from(h).is_err(), "a value with a control character was accepted");
    Ok(())
}
fn url(s: &mut Src) -> Url {
    let t = format!("{}://{}/{}{}", s.pick(&["http", "https"]), s.pick(&["a", "b.example:81", "127.0.0.1"]), s.pick(&["", "p", "p/q;x", "%20"]), s.pick(&["", "?q=1", "?a=b&c=%26"]));
    s.note("url", &t);
    Url::parse(&t).unwrap()
}
fn request_out(s: &mut Src) -> R {
    let m = s.pick(crate::p02::METHODS).1;
    let u = url(s);
    let mut r = Request::new(m, u.clone());
    let mut hm = Hs::new();
    headers(s, r.as_mut(), &mut hm);
    let (b, bm) = body(s);
    r.set_body(b);
    if let Some(t) = &bm.mime {
        hm.entry("content-type".into()).or_insert_with(|| vec![t.clone()]);
    }
    let v = if s.bool() { Some(*s.pick(VERSIONS)) } else { None };
    s.dbg("version", &v);
    r.set_version(v.map(|v| v.0));
    let h: http::Request<Body> = r.into();
    eqv!(h.method().as_str(), m.to_string().as_str(), "method of the http request");
    eqv!(h.uri().to_string(), u.to_string(), "URI of the http request");
    eqv!(h.version(), v.map(|v| v.1).unwrap_or(http::Version::HTTP_11), "version of the http request");
    eqv!(dump_http(h.headers()), bytes(&hm), "headers of the http request");
    let back = Request::try_from(h).map_err(|e| e.to_string())?;
    eqv!(back.method(), m, "method there and back");
    eqv!(back.url(), &u, "URL there and back");
    eqv!(back.version(), Some(v.map(|v| v.0).unwrap_or(Version::Http1_1)), "version there and back");
    eqv!(dump(back.as_ref()), hm, "headers there and back");
    let mut back = back;
    eqv!(back.len().map(|l| l as u64), bm.len, "body length there and back");
    eqv!(block_on(back.body_bytes()).map_err(|e| e.to_string())?, bm.data, "body there and back");
    Ok(())
}
fn request_in(s: &mut Src) -> R {
    let m = *s.pick(&["GET", "PROPFIND", "get", "BREW", "VERSION-CONTROL"]);
    let u = *s.pick(&["http://a/", "https://b.example:81/p?q", "/p", "*", "a:80", "http://a"]);
    let (vo, vh) = *s.pick(VERSIONS);
    s.note("request", &format!("{} {} {:?}", m, u, vo));
    let (b, bm) = body(s);
    let mut r = http::Request::new(b);
    *r.method_mut() = http::Method::from_bytes(m.as_bytes()).map_err(|e| e.to_string())?;
    *r.uri_mut() = u.parse().map_err(|_| "uri")?;
    *r.version_mut() = vh;
    let mut hm = Hs::new();
    let ascii = http_headers(s, r.headers_mut(), &mut hm);
    let uri = Url::parse(&r.uri().to_string());
    match Request::try_from(r) {
        Ok(mut q) => {
            ck!(m != "BREW" && uri.is_ok() && ascii, "a request that has no equal here was accepted");
            eqv!(q.method().to_string(), m.to_ascii_uppercase(), "method");
            eqv!(q.url(), &uri.unwrap(), "URL");
            eqv!(q.version(), Some(vo), "version");
            if let Some(t) = &bm.mime {
                hm.entry("content-type".into()).or_insert_with(|| vec![t.clone()]);
            }
            eqv!(dump(q.as_ref()), hm, "headers");
            eqv!(block_on(q.body_bytes()).map_err(|e| e.to_string())?, bm.data, "body");
        }
        Err(_) => ck!(m == "BREW" || uri.is_err() || !ascii, "a request was refused"),
    }
    Ok(())
}
fn response_both(s: &mut Src) -> R {
    let n = s.pick(crate::p01::TABLE).0;
    let mut r = Response::new(n);
    let mut hm = Hs::new();
    headers(s, r.as_mut(), &mut hm);
    let (b, bm) = body(s);
    r.set_body(b);
    if let Some(t) = &bm.mime {
        hm.entry("content-type".into()).or_insert_with(|| vec![t.clone()]);
    }
    let v = if s.bool() { Some(*s.pick(VERSIONS)) } else { None };
    s.note("response", &format!("{} {:?}", n, v));
    r.set_version(v.map(|v| v.0));
    let h: http::Response<Body> = r.into();
    eqv!(h.status().as_u16(), n, "status of the http response");
    eqv!(h.version(), v.map(|v| v.1).unwrap_or(http::Version::HTTP_11), "version of the http response");
    eqv!(dump_http(h.headers()), bytes(&hm), "headers of the http response");
    let mut back = Response::try_from(h).map_err(|e| e.to_string())?;
    eqv!(u16::from(back.status()), n, "status there and back");
    eqv!(back.version(), Some(v.map(|v| v.0).unwrap_or(Version::Http1_1)), "version there and back");
    eqv!(dump(back.as_ref()), hm, "headers there and back");
    eqv!(back.len().map(|l| l as u64), bm.len, "body length there and back");
    eqv!(block_on(back.body_bytes()).map_err(|e| e.to_string())?, bm.data, "body there and back");
    Ok(())
}
fn response_in(s: &mut Src) -> R {
    let (vo, vh) = *s.pick(VERSIONS);
    let (b, bm) = body(s);
    let mut r = http::Response::new(b);
    *r.version_mut() = vh;
    let mut hm = Hs::new();
    let ascii = http_headers(s, r.headers_mut(), &mut hm);
    match Response::try_from(r) {
        Ok(mut q) => {
            ck!(ascii, "a header value that is not ASCII was accepted");
            eqv!(q.version(), Some(vo), "version");
            if let Some(t) = &bm.mime {
                hm.entry("content-type".into()).or_insert_with(|| vec![t.clone()]);
            }
            eqv!(dump(q.as_ref()), hm, "headers");
            eqv!(block_on(q.body_bytes()).map_err(|e| e.to_string())?, bm.data, "body");
        }
        Err(_) => ck!(!ascii, "a response was refused"),
    }
    Ok(())
}
pub fn contracts() -> Vec<C> {
    vec![
        C { id: "http.versions", clause: "versions correspond one-to-one", how: How::All(100), f: versions },
        C { id: "http.methods", clause: "every method converts to its name and back", how: How::All(100), f: methods },
        C { id: "http.statuses", clause: "registered codes convert both ways, a response with another one is refused", how: How::All(1000), f: statuses },
        C { id: "http.names", clause: "a name converts exactly when it is a token, and back to itself", how: How::Rand(8000), f: names },
        C { id: "http.values", clause: "a value converts exactly when it can be sent, or is ASCII, and keeps its bytes", how: How::Rand(8000), f: values },
        C { id: "http.maps", clause: "header maps keep every value of every name in order, or are refused", how: How::Rand(8000), f: maps },
        C { id: "http.request_out", clause: "a request to http and back: method, URL, version, headers, body", how: How::Rand(8000), f: request_out },
        C { id: "http.request_in", clause: "a request from http, or an error where it has no equal", how: How::Rand(8000), f: request_in },
        C { id: "http.response_out", clause: "a response to http and back: status, version, headers, body", how: How::Rand(8000), f: response_both },
        C { id: "http.response_in", clause: "a response from http, or an error where it has no equal", how: How::Rand(8000), f: response_in },
    ]
}
