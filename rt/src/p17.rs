use crate::core::*;
use crate::{ck, eqv};
use futures_lite::future::block_on;
use futures_lite::io::{AsyncReadExt, Cursor};
use http_types::headers::{HeaderValue, Headers};
use http_types::mime::Mime;
use http_types::{mime, Body, Method, Request, Response, StatusCode, Url, Version};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::str::FromStr;

type Hs = BTreeMap<String, Vec<String>>;
fn dump(h: &Headers) -> Hs {
    h.iter().map(|(n, v)| (n.as_str().to_string(), v.iter().map(|x| x.as_str().to_string()).collect())).collect()
}
#[derive(Clone, Debug)]
pub struct Mb {
    pub data: Vec<u8>,
    pub len: Option<u64>,
    pub mime: Option<String>,
}
fn no_body() -> Mb {
    Mb { data: vec![], len: Some(0), mime: Some("application/octet-stream".into()) }
}
const MIMES: &[&str] = &["text/html;charset=utf-8", "image/png", "a/b;c=\"d;e\"", "application/json", "text/plain;x=\"\\\"\""];
pub fn body(s: &mut Src) -> (Body, Mb) {
    let text = s.any_str(6);
    let data = text.clone().into_bytes();
    let n = data.len() as u64;
    let (mut b, mut m) = match s.below(8) {
        0 => (Body::from_string(text), Mb { data, len: Some(n), mime: Some("text/plain;charset=utf-8".into()) }),
        1 => (Body::from(text.as_str()), Mb { data, len: Some(n), mime: Some("text/plain;charset=utf-8".into()) }),
        2 => (Body::from_bytes(data.clone()), Mb { data, len: Some(n), mime: Some("application/octet-stream".into()) }),
        3 => (Body::from(&data[..]), Mb { data: data.clone(), len: Some(n), mime: Some("application/octet-stream".into()) }),
        4 => (Body::empty(), no_body()),
        5 => (Body::from_reader(Cursor::new(data.clone()), None), Mb { data, len: None, mime: Some("application/octet-stream".into()) }),
        6 => {
            let k = s.below(data.len() + 1);
            (Body::from_reader(Cursor::new(data.clone()), Some(k as u64)), Mb { data: data[..k].to_vec(), len: Some(k as u64), mime: Some("application/octet-stream".into()) })
        }
        _ => {
            let v = serde_json::json!([text]);
            let d = serde_json::to_vec(&v).unwrap();
            (Body::from_json(&v).unwrap(), Mb { len: Some(d.len() as u64), data: d, mime: Some("application/json".into()) })
        }
    };
    match s.below(4) {
        0 => {
            let t = *s.pick(MIMES);
            b.set_mime(Some(Mime::from_str(t).unwrap()));
            m.mime = Some(Mime::from_str(t).unwrap().to_string());
        }
        1 => {
            b.set_mime(None::<Mime>);
            m.mime = None;
        }
        _ => {}
    }
    (b, m)
}
fn sync(h: &mut Hs, b: &Mb) {
    if let Some(t) = &b.mime {
        h.entry("content-type".into()).or_insert_with(|| vec![t.clone()]);
    }
}
fn same_body(b: Body, m: &Mb) -> R {
    eqv!(b.len(), m.len, "length of the body");
    eqv!(b.mime().map(|t| t.to_string()), m.mime.clone(), "media type of the body");
    eqv!(block_on(b.into_bytes()).map_err(|e| e.to_string())?, m.data.clone(), "content of the body");
    Ok(())
}
const VERSIONS: &[Version] = &[Version::Http0_9, Version::Http1_0, Version::Http1_1, Version::Http2_0, Version::Http3_0];

macro_rules! history {
    ($fname:ident, $t:ty, $new:expr, $extra:expr, $same:expr) => {
        fn $fname(s: &mut Src) -> R {
            let mut c: $t = $new(s);
            let mut h = Hs::new();
            let mut b = no_body();
            let (mut version, mut peer, mut local): (Option<Version>, Option<String>, Option<String>) = (None, None, None);
            let mut marked = false;
            for _ in 0..1 + s.below(9) {
                match s.below(18) {
                    0 | 1 => {
                        let (x, m) = body(s);
                        s.dbg("set_body", &m);
                        c.set_body(x);
                        sync(&mut h, &m);
                        b = m;
                    }
                    2 => {
                        let (x, m) = body(s);
                        s.dbg("replace_body", &m);
                        same_body(c.replace_body(x), &b)?;
                        sync(&mut h, &m);
                        b = m;
                    }
                    3 => {
                        let (mut x, m) = body(s);
                        s.dbg("swap_body", &m);
                        c.swap_body(&mut x);
                        same_body(x, &b)?;
                        sync(&mut h, &m);
                        b = m;
                    }
                    4 => {
                        s.note("op", "take_body");
                        same_body(c.take_body(), &b)?;
                        b = no_body();
                        sync(&mut h, &b);
                    }
                    5 => {
                        s.note("op", "body_string");
                        let utf8 = b.mime.as_deref().map_or(true, |m| !m.contains("charset") || m.contains("charset=utf-8"));
                        let r = block_on(c.body_string());
                        match String::from_utf8(b.data.clone()) {
                            Ok(t) if utf8 => eqv!(r.map_err(|e| e.to_string())?, t, "body_string"),
                            Ok(_) => {}
                            Err(_) => eqv!(u16::from(r.unwrap_err().status()), 422, "body_string status"),
                        }
                        b = no_body();
                        sync(&mut h, &b);
                    }
                    6 => {
                        s.note("op", "body_bytes");
                        eqv!(block_on(c.body_bytes()).map_err(|e| e.to_string())?, b.data, "body_bytes");
                        b = no_body();
                        sync(&mut h, &b);
                    }
                    7 => {
                        s.note("op", "body_json");
                        let r = block_on(c.body_json::<serde_json::Value>());
                        match serde_json::from_slice::<serde_json::Value>(&b.data) {
                            Ok(v) => eqv!(r.map_err(|e| e.to_string())?, v, "body_json"),
                            Err(_) => eqv!(u16::from(r.unwrap_err().status()), 422, "body_json status"),
                        }
                        b = no_body();
                        sync(&mut h, &b);
                    }
                    8 => {
                        let t = *s.pick(MIMES);
                        s.note("set_content_type", t);
                        let m = Mime::from_str(t).unwrap();
                        let old = c.set_content_type(m.clone());
                        let was = h.insert("content-type".into(), vec![m.to_string()]);
                        eqv!(old.map(|v| v.iter().map(|x| x.as_str().to_string()).collect::<Vec<_>>()), was, "replaced Content-Type");
                    }
                    9 => {
                        let n = *s.pick(&["Content-Type", "content-type", "X-A"]);
                        s.note("remove_header", n);
                        let old = c.remove_header(n);
                        eqv!(old.map(|v| v.iter().map(|x| x.as_str().to_string()).collect::<Vec<_>>()), h.remove(&n.to_lowercase()), "removed header");
                    }
                    10 => {
                        let (n, v) = (*s.pick(&["CONTENT-TYPE", "x-a", "X-B"]), *s.pick(&["text/css", "junk", "", "a/b;c=d"]));
                        s.note("insert_header", format!("{}: {}", n, v));
                        c.insert_header(n, v).map_err(|e| e.to_string())?;
                        h.insert(n.to_lowercase(), vec![v.into()]);
                    }
                    11 => {
                        let (n, v) = (*s.pick(&["CONTENT-TYPE", "x-a", "X-B"]), *s.pick(&["text/css", "junk", "image/gif"]));
                        s.note("append_header", format!("{}: {}", n, v));
                        c.append_header(n, v).map_err(|e| e.to_string())?;
                        h.entry(n.to_lowercase()).or_default().push(v.into());
                    }
                    12 => {
                        let v = if s.bool() { Some(*s.pick(VERSIONS)) } else { None };
                        s.dbg("set_version", v);
                        c.set_version(v);
                        version = v;
                    }
                    13 => {
                        let v = s.below(70000);
                        let x = if s.bool() { Some(v) } else { None };
                        s.dbg("addr", x);
                        if s.bool() {
                            c.set_peer_addr(x);
                            peer = x.map(|v| v.to_string());
                        } else {
                            c.set_local_addr(x);
                            local = x.map(|v| v.to_string());
                        }
                    }
                    14 => {
                        s.note("op", "read");
                        let mut buf = vec![0; s.below(5)];
                        let n = block_on(c.read(&mut buf)).map_err(|e| e.to_string())?;
                        ck!(n <= b.data.len() && buf[..n] == b.data[..n] && (n > 0 || buf.is_empty() || b.data.is_empty()), "read {} bytes {:?} of {:?}", n, &buf[..n], b.data);
                        let m = b.mime.clone();
                        let whole = c.len();
                        // what is left reads as the rest; the declared length stays
                        eqv!(whole, b.len, "length while reading");
                        let rest = b.data[n..].to_vec();
                        eqv!(block_on(c.body_bytes()).map_err(|e| e.to_string())?, rest, "rest after reading");
                        b = no_body();
                        let _ = m;
                        sync(&mut h, &b);
                    }
                    15 => {
                        s.note("op", "mark extensions, header_mut");
                        marked = true;
                        c.ext_mut().insert(7u8);
                        if let Some(v) = c.header_mut("x-a") {
                            v.append(&mut HeaderValue::from_str("more").unwrap().into_iter_values());
                            h.get_mut("x-a").unwrap().push("more".into());
                        }
                    }
                    16 => {
                        s.note("op", "clone");
                        let mut d = c.clone();
                        eqv!(dump(d.as_ref()), h, "headers of the clone");
                        eqv!((d.version(), d.peer_addr().map(String::from), d.local_addr().map(String::from)), (version, peer.clone(), local.clone()), "version and addresses of the clone");
                        ck!(d.ext().get::<u8>().is_none(), "extensions cloned");
                        ck!(!d.has_trailers(), "clone has trailers");
                        $same(&c, &d)?;
                        d.set_peer_addr(Some("elsewhere"));
                        d.remove_header("x-a");
                        let mut e = c.clone();
                        same_body(e.take_body(), &no_body())?;
                    }
                    _ => $extra(s, &mut c)?,
                }
                eqv!(dump(c.as_ref()), h, "headers");
                eqv!(c.len(), b.len, "len");
                eqv!(c.is_empty(), b.len.map(|l| l == 0), "is_empty");
                eqv!((c.version(), c.peer_addr().map(String::from), c.local_addr().map(String::from)), (version, peer.clone(), local.clone()), "version and addresses");
                eqv!(c.ext().get::<u8>().is_some(), marked, "extensions");
                let ct = h.get("content-type").and_then(|v| Mime::from_str(v.last().unwrap()).ok());
                eqv!(c.content_type(), ct, "content_type");
            }
            same_body(c.take_body(), &b)
        }
    };
}
trait IntoValues {
    fn into_iter_values(self) -> http_types::headers::HeaderValues;
}
impl IntoValues for HeaderValue {
    fn into_iter_values(self) -> http_types::headers::HeaderValues {
        std::iter::once(self).collect()
    }
}
fn new_req(s: &mut Src) -> Request {
    let m = *s.pick(&[Method::Get, Method::Post, Method::Unbind]);
    Request::new(m, "http://u:p@h.example:81/p?q#f")
}
fn req_op(s: &mut Src, r: &mut Request) -> R {
    if s.bool() {
        let m = *s.pick(&[Method::Put, Method::Trace, Method::Search]);
        r.set_method(m);
        eqv!(r.method(), m, "method");
    } else {
        let u = Url::parse(s.pick::<&str>(&["http://a/", "https://b:9/c?d", "x:y"])).unwrap();
        *r.url_mut() = u.clone();
        eqv!(r.url(), &u, "url");
    }
    Ok(())
}
fn req_same(a: &Request, b: &Request) -> R {
    eqv!((a.method(), a.url()), (b.method(), b.url()), "method and URL of the clone");
    Ok(())
}
fn new_res(s: &mut Src) -> Response {
    Response::new(*s.pick(&[StatusCode::Ok, StatusCode::NotFound, StatusCode::ImATeapot]))
}
fn res_op(s: &mut Src, r: &mut Response) -> R {
    let c = *s.pick(&[StatusCode::Created, StatusCode::Gone, StatusCode::BadGateway]);
    r.set_status(c);
    eqv!(r.status(), c, "status");
    Ok(())
}
fn res_same(a: &Response, b: &Response) -> R {
    eqv!(a.status(), b.status(), "status of the clone");
    ck!(!b.has_upgrade(), "clone has an upgrade");
    Ok(())
}
history!(request, Request, new_req, req_op, req_same);
history!(response, Response, new_res, res_op, res_same);

// Forwarded, read one character at a time
fn ref_part(t: &str, part: &str) -> Option<String> {
    let mut pairs = vec![String::new()];
    let (mut q, mut e) = (false, false);
    for c in t.chars() {
        if e {
            e = false;
        } else if c == '"' {
            q = !q;
        } else if q {
            e = c == '\\';
        } else if c == ',' || c == ';' {
            pairs.push(String::new());
            continue;
        }
        pairs.last_mut().unwrap().push(c);
    }
    for p in pairs {
        if let Some(i) = p.find('=') {
            if p[..i].trim().eq_ignore_ascii_case(part) {
                let v = p[i + 1..].trim();
                let n = v.len();
                return Some(if n >= 2 && v.starts_with('"') && v.ends_with('"') { v[1..n - 1].to_string() } else { v.to_string() });
            }
        }
    }
    None
}
fn fwd_text(s: &mut Src) -> String {
    s.frags(&["for=", "host=", "HOST =", " For=", "by=", "proto=http", ";", ";", ",", "; ", ", ", "a.example", "\"b;c\"", "\"d,e\"", "\"\\\"\"", "\"", "192.0.2.1:80", "\"[::1]\"", "=", " ", "host", "xhost=z", "for"], 9)
}
fn origin(s: &mut Src) -> R {
    let mut r = Request::new(Method::Get, *s.pick(&["http://url.example:8/", "x:", "http://[::1]/", "https://\u{fc}.example/"]));
    let mut m: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    for n in ["Forwarded", "X-Forwarded-Host", "X-Forwarded-For", "Host"] {
        if !s.one_in(3) {
            continue;
        }
        for _ in 0..1 + s.below(2) {
            let v = if n == "Forwarded" { fwd_text(s) } else { s.frags(&["a.example", ",", ", ", "b", " ", "::1", "\"q,r\""], 4) };
            s.note(n, &v);
            r.append_header(n, v.as_str()).map_err(|e| e.to_string())?;
            m.entry(n).or_default().push(v);
        }
    }
    if s.bool() {
        r.set_peer_addr(Some("peer:1"));
    }
    if s.bool() {
        r.set_local_addr(Some("local:1"));
    }
    let one = |n: &str| m.get(n).map(|v| v[0].clone());
    let entry = |n: &str| one(n).map(|t| t.split(',').next().unwrap().to_string());
    let part = |p: &str| one("Forwarded").and_then(|t| ref_part(&t, p));
    let host = part("host").or(entry("X-Forwarded-Host")).or(one("Host")).or(r.url().host_str().map(String::from));
    eqv!(r.host().map(String::from), host, "host");
    let remote = part("for").or(entry("X-Forwarded-For")).or(r.peer_addr().map(String::from));
    eqv!(r.remote().map(String::from), remote, "remote");
    Ok(())
}
fn query(s: &mut Src) -> R {
    let mut r = Request::new(Method::Get, *s.pick(&["http://h/p", "http://h/p?x=1", "http://h/?a=b&a=c#frag"]));
    let mut q: BTreeMap<String, String> = BTreeMap::new();
    for _ in 0..s.size(3) {
        let k: String = s.any_str(4).chars().filter(|c| !"[]".contains(*c)).collect();
        if !k.is_empty() {
            q.insert(k, s.any_str(5));
        }
    }
    s.dbg("query", &q);
    let before = r.url().clone();
    r.set_query(&q).map_err(|e| e.to_string())?;
    let u = r.url();
    eqv!((before.host_str(), before.path(), before.fragment()), (u.host_str(), u.path(), u.fragment()), "rest of the URL");
    eqv!(r.query::<BTreeMap<String, String>>().map_err(|e| e.to_string())?, q, "query read back");
    let mut p = Request::new(Method::Get, "http://h/");
    p.url_mut().set_query(Some(s.pick::<&str>(&["n=x", "n=-1", "m=3", "n=", "n=256"])));
    #[derive(serde::Deserialize, Debug)]
    struct N {
        #[allow(dead_code)]
        n: u8,
    }
    match p.query::<N>() {
        Err(e) => eqv!(u16::from(e.status()), 400, "status"),
        Ok(n) => ck!(false, "read {:?} from {:?}", n, p.url().query()),
    }
    Ok(())
}
fn made(s: &mut Src) -> R {
    type F = fn(&'static str) -> Request;
    let all: &[(F, Method)] = &[
        (Request::get, Method::Get),
        (Request::head, Method::Head),
        (Request::post, Method::Post),
        (Request::put, Method::Put),
        (Request::delete, Method::Delete),
        (Request::connect, Method::Connect),
        (Request::options, Method::Options),
        (Request::trace, Method::Trace),
        (Request::patch, Method::Patch),
    ];
    let (f, m) = *s.pick(all);
    let r = f("http://h.example/a?b");
    s.dbg("method", m);
    eqv!((r.method(), r.url().as_str()), (m, "http://h.example/a?b"), "made");
    ck!(r.iter().count() == 0 && r.is_empty() == Some(true) && r.version().is_none() && r.peer_addr().is_none() && r.local_addr().is_none() && !r.has_trailers(), "{:?}", r);
    let n = 100 + s.below(500) as u16;
    if StatusCode::try_from(n).is_ok() {
        let x = Response::new(n);
        eqv!(u16::from(x.status()), n, "status");
        ck!(x.iter().count() == 0 && x.is_empty() == Some(true) && !x.has_upgrade() && !x.has_trailers(), "{:?}", x);
        let x = Response::from(StatusCode::try_from(n).unwrap());
        eqv!((u16::from(x.status()), x.iter().count()), (n, 0), "from a status");
    }
    let x = Response::from(());
    eqv!((x.status(), x.iter().count()), (StatusCode::NoContent, 0), "from ()");
    let (b, m) = body(s);
    s.dbg("body", &m);
    let mut x = Response::from(b);
    eqv!(x.status(), StatusCode::Ok, "status of a body");
    let mut h = Hs::new();
    sync(&mut h, &m);
    eqv!(dump(x.as_ref()), h, "headers of a body");
    same_body(x.take_body(), &m)?;
    let (b, m) = body(s);
    let mut r = Request::post("http://h/");
    r.set_body(b);
    same_body(Body::from(r), &m)?;
    let _ = mime::PLAIN;
    Ok(())
}
pub fn contracts() -> Vec<C> {
    vec![
        C { id: "request.history", clause: "a request's body, headers and fields", how: How::Rand(40000), f: request },
        C { id: "response.history", clause: "a response's body, headers and fields", how: How::Rand(40000), f: response },
        C { id: "request.origin", clause: "host and remote address", how: How::Rand(60000), f: origin },
        C { id: "request.query", clause: "query round trip", how: How::Rand(20000), f: query },
        C { id: "message.made", clause: "constructors and conversions", how: How::Rand(20000), f: made },
    ]
}
