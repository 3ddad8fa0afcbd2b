use crate::core::*;
use crate::{ck, eqv};
use http_types::{Method, Version};
use std::convert::TryFrom;
use std::str::FromStr;

pub const METHODS: &[(&str, Method)] = &[
    ("ACL", Method::Acl), ("BASELINE-CONTROL", Method::BaselineControl), ("BIND", Method::Bind), ("CHECKIN", Method::Checkin),
    ("CHECKOUT", Method::Checkout), ("CONNECT", Method::Connect), ("COPY", Method::Copy), ("DELETE", Method::Delete),
    ("GET", Method::Get), ("HEAD", Method::Head), ("LABEL", Method::Label), ("LINK", Method::Link), ("LOCK", Method::Lock),
    ("MERGE", Method::Merge), ("MKACTIVITY", Method::MkActivity), ("MKCALENDAR", Method::MkCalendar), ("MKCOL", Method::MkCol),
    ("MKREDIRECTREF", Method::MkRedirectRef), ("MKWORKSPACE", Method::MkWorkspace), ("MOVE", Method::Move),
    ("OPTIONS", Method::Options), ("ORDERPATCH", Method::OrderPatch), ("PATCH", Method::Patch), ("POST", Method::Post),
    ("PRI", Method::Pri), ("PROPFIND", Method::PropFind), ("PROPPATCH", Method::PropPatch), ("PUT", Method::Put),
    ("REBIND", Method::Rebind), ("REPORT", Method::Report), ("SEARCH", Method::Search), ("TRACE", Method::Trace),
    ("UNBIND", Method::Unbind), ("UNCHECKOUT", Method::Uncheckout), ("UNLINK", Method::Unlink), ("UNLOCK", Method::Unlock),
    ("UPDATE", Method::Update), ("UPDATEREDIRECTREF", Method::UpdateRedirectRef), ("VERSION-CONTROL", Method::VersionControl),
];
/// RFC 9110 9.2.1 and the IANA registry's "safe" column.
const SAFE: &[&str] = &["GET", "HEAD", "OPTIONS", "PRI", "PROPFIND", "REPORT", "SEARCH", "TRACE"];
pub const VERSIONS: &[(&str, Version)] = &[
    ("HTTP/0.9", Version::Http0_9), ("HTTP/1.0", Version::Http1_0), ("HTTP/1.1", Version::Http1_1), ("HTTP/2", Version::Http2_0), ("HTTP/3", Version::Http3_0),
];

/// Another way of writing (nearly) the same text: case changes, insertions, deletions, substitutions, look-alikes.
pub fn mutate(s: &mut Src, base: &str) -> String {
    let mut v: Vec<char> = base.chars().collect();
    match s.choose(6) {
        0 => {}
        1 => {
            for c in v.iter_mut() {
                if s.bool() {
                    *c = if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
                }
            }
        }
        2 => {
            let i = s.below(v.len() + 1);
            let c = s.any_char();
            v.insert(i, c);
        }
        3 => {
            if !v.is_empty() {
                let i = s.below(v.len());
                v.remove(i);
            }
        }
        4 => {
            if !v.is_empty() {
                let i = s.below(v.len());
                v[i] = s.any_char();
            }
        }
        _ => {
            // non-ASCII characters that fold to ASCII letters
            for c in v.iter_mut() {
                match *c {
                    'S' | 's' if s.bool() => *c = '\u{17f}',
                    'K' | 'k' if s.bool() => *c = '\u{212a}',
                    'I' | 'i' if s.bool() => *c = '\u{131}',
                    _ => {}
                }
            }
        }
    }
    v.into_iter().collect()
}

fn method_all(s: &mut Src) -> R {
    let (name, m) = METHODS[s.below(METHODS.len())];
    s.note("method", name);
    eqv!(m.as_ref(), name, "as_ref");
    eqv!(m.to_string(), name, "Display");
    eqv!(Method::from_str(name).map_err(|e| e.to_string()), Ok(m), "from_str({:?})", name);
    eqv!(Method::from_str(&name.to_ascii_lowercase()).map_err(|e| e.to_string()), Ok(m), "from_str(lower case {:?})", name);
    eqv!(Method::try_from(name).map_err(|e| e.to_string()), Ok(m), "try_from({:?})", name);
    eqv!(m.is_safe(), SAFE.contains(&name), "is_safe of {}", name);
    for (n2, m2) in METHODS {
        eqv!(m == *m2, name == *n2, "{} == {}", name, n2);
    }
    eqv!(serde_json::to_value(m).unwrap(), serde_json::Value::String(name.into()), "serialised");
    eqv!(serde_json::from_value::<Method>(serde_json::Value::String(name.into())).map_err(|e| e.to_string()), Ok(m), "deserialised from an owned string");
    Ok(())
}

fn method_text(s: &mut Src) -> R {
    let i = s.below(METHODS.len());
    let t = mutate(s, METHODS[i].0);
    s.dbg("text", &t);
    let want = METHODS.iter().find(|(n, _)| n.eq_ignore_ascii_case(&t)).map(|x| x.1);
    eqv!(Method::from_str(&t).ok(), want, "from_str({:?})", t);
    eqv!(Method::try_from(t.as_str()).ok(), want, "try_from({:?})", t);
    let j = serde_json::to_string(&t).unwrap();
    eqv!(serde_json::from_str::<Method>(&j).ok(), want, "deserialise {}", j);
    eqv!(serde_json::from_value::<Method>(serde_json::Value::String(t.clone())).ok(), want, "deserialise owned {}", j);
    Ok(())
}

fn version_all(s: &mut Src) -> R {
    let i = s.below(VERSIONS.len());
    let (name, v) = VERSIONS[i];
    s.note("version", name);
    eqv!(v.as_ref(), name, "as_ref");
    eqv!(v.to_string(), name, "Display");
    eqv!(serde_json::to_value(v).unwrap(), serde_json::Value::String(name.into()), "serialised");
    for (j, (n2, w)) in VERSIONS.iter().enumerate() {
        eqv!(v.cmp(w), i.cmp(&j), "order of {} and {}", name, n2);
        eqv!(v.partial_cmp(w), Some(i.cmp(&j)), "partial order of {} and {}", name, n2);
        eqv!(v == *w, i == j, "{} == {}", name, n2);
    }
    Ok(())
}

fn version_text(s: &mut Src) -> R {
    let i = s.below(VERSIONS.len());
    let t = if s.one_in(4) { s.pick(&["HTTP/2.0", "HTTP/3.0", "HTTP/1", "HTTP/10", "HTTP/1.2", "", "2", "http/1.1"]).to_string() } else { mutate(s, VERSIONS[i].0) };
    s.dbg("text", &t);
    let want = VERSIONS.iter().find(|(n, _)| *n == t).map(|x| x.1);
    let j = serde_json::to_string(&t).unwrap();
    eqv!(serde_json::from_str::<Version>(&j).ok(), want, "deserialise {}", j);
    eqv!(serde_json::from_value::<Version>(serde_json::Value::String(t.clone())).ok(), want, "deserialise owned {}", j);
    Ok(())
}

/// A message carries the method and version it was given, unchanged, whichever form they came in.
fn carried(s: &mut Src) -> R {
    let (name, m) = METHODS[s.below(METHODS.len())];
    let (_, m2) = METHODS[s.below(METHODS.len())];
    let (vn, v) = VERSIONS[s.below(VERSIONS.len())];
    s.note("method", name);
    s.note("version", vn);
    let mut r = http_types::Request::new(m, "http://example.com");
    eqv!(r.method(), m, "Request::new.method()");
    eqv!(r.version(), None, "initial version");
    r.set_version(Some(v));
    eqv!(r.version(), Some(v), "Request version");
    r.set_method(m2);
    eqv!(r.method(), m2, "set_method");
    eqv!(r.version(), Some(v), "version after set_method");
    let c = r.clone();
    eqv!((c.method(), c.version()), (m2, Some(v)), "clone");
    r.set_version(None);
    eqv!(r.version(), None, "version reset");
    let mut p = http_types::Response::new(200);
    eqv!(p.version(), None, "initial response version");
    p.set_version(Some(v));
    eqv!(p.version(), Some(v), "Response version");
    eqv!(p.clone().version(), Some(v), "Response clone version");
    ck!(http_types::Request::get("http://a/").method() == Method::Get && http_types::Request::head("http://a/").method() == Method::Head
        && http_types::Request::post("http://a/").method() == Method::Post && http_types::Request::put("http://a/").method() == Method::Put
        && http_types::Request::delete("http://a/").method() == Method::Delete && http_types::Request::connect("http://a/").method() == Method::Connect
        && http_types::Request::options("http://a/").method() == Method::Options && http_types::Request::trace("http://a/").method() == Method::Trace
        && http_types::Request::patch("http://a/").method() == Method::Patch, "a shorthand constructor gives another method");
    Ok(())
}

pub fn contracts() -> Vec<C> {
    vec![
        C { id: "method.all", clause: "Method::{as_ref, fmt, from_str, try_from, is_safe, eq, serde}, all 39 methods", how: How::All(100), f: method_all },
        C { id: "method.text", clause: "Method::from_str/Deserialize: Ok(m) iff the text is m's name up to ASCII case", how: How::Rand(60000), f: method_text },
        C { id: "version.all", clause: "Version::{as_ref, fmt, cmp, serialise}, all versions and pairs", how: How::All(100), f: version_all },
        C { id: "version.text", clause: "Version Deserialize: Ok(v) iff the text is v's name", how: How::Rand(20000), f: version_text },
        C { id: "method.carried", clause: "Request/Response keep the method and version they were given", how: How::All(100000), f: carried },
    ]
}
