use crate::core::*;
use crate::{ck, eqv};
use http_types::headers::{Header, HeaderName, HeaderValue, HeaderValues, ToHeaderValues};
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

/// The predefined names and their registered text.
const CONSTANTS: &[(&HeaderName, &str)] = &[
    (&http_types::headers::CONTENT_ENCODING, "content-encoding"),
    (&http_types::headers::CONTENT_LANGUAGE, "content-language"),
    (&http_types::headers::CONTENT_LENGTH, "content-length"),
    (&http_types::headers::CONTENT_LOCATION, "content-location"),
    (&http_types::headers::CONTENT_MD5, "content-md5"),
    (&http_types::headers::CONTENT_RANGE, "content-range"),
    (&http_types::headers::CONTENT_TYPE, "content-type"),
    (&http_types::headers::COOKIE, "cookie"),
    (&http_types::headers::SET_COOKIE, "set-cookie"),
    (&http_types::headers::TRANSFER_ENCODING, "transfer-encoding"),
    (&http_types::headers::DATE, "date"),
    (&http_types::headers::HOST, "host"),
    (&http_types::headers::ORIGIN, "origin"),
    (&http_types::headers::ACCESS_CONTROL_MAX_AGE, "access-control-max-age"),
    (&http_types::headers::ACCESS_CONTROL_ALLOW_ORIGIN, "access-control-allow-origin"),
    (&http_types::headers::ACCESS_CONTROL_ALLOW_HEADERS, "access-control-allow-headers"),
    (&http_types::headers::ACCESS_CONTROL_ALLOW_METHODS, "access-control-allow-methods"),
    (&http_types::headers::ACCESS_CONTROL_EXPOSE_HEADERS, "access-control-expose-headers"),
    (&http_types::headers::ACCESS_CONTROL_REQUEST_METHOD, "access-control-request-method"),
    (&http_types::headers::ACCESS_CONTROL_REQUEST_HEADERS, "access-control-request-headers"),
    (&http_types::headers::ACCESS_CONTROL_ALLOW_CREDENTIALS, "access-control-allow-credentials"),
    (&http_types::headers::ACCEPT, "accept"),
    (&http_types::headers::ACCEPT_CHARSET, "accept-charset"),
    (&http_types::headers::ACCEPT_ENCODING, "accept-encoding"),
    (&http_types::headers::ACCEPT_LANGUAGE, "accept-language"),
    (&http_types::headers::ACCEPT_RANGES, "accept-ranges"),
    (&http_types::headers::AGE, "age"),
    (&http_types::headers::ALLOW, "allow"),
    (&http_types::headers::AUTHORIZATION, "authorization"),
    (&http_types::headers::CACHE_CONTROL, "cache-control"),
    (&http_types::headers::CLEAR_SITE_DATA, "clear-site-data"),
    (&http_types::headers::CONNECTION, "connection"),
    (&http_types::headers::ETAG, "etag"),
    (&http_types::headers::EXPECT, "expect"),
    (&http_types::headers::EXPIRES, "expires"),
    (&http_types::headers::FORWARDED, "forwarded"),
    (&http_types::headers::FROM, "from"),
    (&http_types::headers::IF_MATCH, "if-match"),
    (&http_types::headers::IF_MODIFIED_SINCE, "if-modified-since"),
    (&http_types::headers::IF_NONE_MATCH, "if-none-match"),
    (&http_types::headers::IF_RANGE, "if-range"),
    (&http_types::headers::IF_UNMODIFIED_SINCE, "if-unmodified-since"),
    (&http_types::headers::LAST_MODIFIED, "last-modified"),
    (&http_types::headers::LOCATION, "location"),
    (&http_types::headers::MAX_FORWARDS, "max-forwards"),
    (&http_types::headers::PRAGMA, "pragma"),
    (&http_types::headers::PROXY_AUTHENTICATE, "proxy-authenticate"),
    (&http_types::headers::PROXY_AUTHORIZATION, "proxy-authorization"),
    (&http_types::headers::PROXY_CONNECTION, "proxy-connection"),
    (&http_types::headers::REFERER, "referer"),
    (&http_types::headers::RETRY_AFTER, "retry-after"),
    (&http_types::headers::SERVER, "server"),
    (&http_types::headers::SERVER_TIMING, "server-timing"),
    (&http_types::headers::SOURCE_MAP, "sourcemap"),
    (&http_types::headers::STRICT_TRANSPORT_SECURITY, "strict-transport-security"),
    (&http_types::headers::TE, "te"),
    (&http_types::headers::TIMING_ALLOW_ORIGIN, "timing-allow-origin"),
    (&http_types::headers::TRACEPARENT, "traceparent"),
    (&http_types::headers::TRAILER, "trailer"),
    (&http_types::headers::UPGRADE, "upgrade"),
    (&http_types::headers::USER_AGENT, "user-agent"),
    (&http_types::headers::VARY, "vary"),
    (&http_types::headers::VIA, "via"),
    (&http_types::headers::WARNING, "warning"),
    (&http_types::headers::WWW_AUTHENTICATE, "www-authenticate"),
];

fn h<T: Hash>(t: &T) -> u64 {
    let mut x = DefaultHasher::new();
    t.hash(&mut x);
    x.finish()
}

fn name_bytes(s: &mut Src) -> R {
    let n = s.below(9);
    let bytes: Vec<u8> = (0..n).map(|_| if s.one_in(5) { s.choose(256) as u8 } else { s.choose(128) as u8 }).collect();
    s.dbg("bytes", &bytes);
    let got = HeaderName::from_bytes(bytes.clone());
    ck!(got.is_ok() == bytes.is_ascii(), "HeaderName::from_bytes({:?}) accepted = {}", bytes, got.is_ok());
    if let Ok(name) = got {
        let want = String::from_utf8(bytes.iter().map(|b| if (b'A'..=b'Z').contains(b) { b + 32 } else { *b }).collect()).unwrap();
        eqv!(name.as_str(), want, "name from {:?}", bytes);
        eqv!(unsafe { HeaderName::from_bytes_unchecked(bytes.clone()) }.as_str(), want, "name from unchecked {:?}", bytes);
        eqv!(unsafe { HeaderValue::from_bytes_unchecked(bytes.clone()) }.as_str().as_bytes(), &bytes[..], "value from unchecked {:?}", bytes);
    }
    let got = HeaderValue::from_bytes(bytes.clone());
    ck!(got.is_ok() == bytes.is_ascii(), "HeaderValue::from_bytes({:?}) accepted = {}", bytes, got.is_ok());
    if let Ok(v) = got {
        eqv!(v.as_str().as_bytes(), &bytes[..], "value from {:?}", bytes);
    }
    Ok(())
}

fn every_char(s: &mut Src) -> R {
    // every character below U+3000, alone and inside a text
    let c = match char::from_u32(s.choose(0x3000) as u32) {
        Some(c) => c,
        None => return Ok(()),
    };
    s.dbg("char", c);
    for t in [c.to_string(), format!("A{}z", c)] {
        let ok = t.chars().all(|c| (c as u32) < 128);
        let n = HeaderName::from_str(&t);
        ck!(n.is_ok() == ok, "HeaderName::from_str({:?}) accepted = {}", t, n.is_ok());
        let v = HeaderValue::from_str(&t);
        ck!(v.is_ok() == ok, "HeaderValue::from_str({:?}) accepted = {}", t, v.is_ok());
        if ok {
            let want: String = t.chars().map(|c| if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c }).collect();
            eqv!(n.unwrap().as_str(), want, "name of {:?}", t);
            eqv!(v.unwrap().as_str(), t, "value of {:?}", t);
        }
    }
    Ok(())
}

fn name_text(s: &mut Src) -> R {
    let t = if s.one_in(2) { s.any_str(8) } else { s.ascii_str(10) };
    s.dbg("text", &t);
    let ok = t.is_ascii();
    let want = t.to_ascii_lowercase();
    let all: Vec<(&str, Option<HeaderName>)> = vec![
        ("from_str", HeaderName::from_str(&t).ok()),
        ("from_string", HeaderName::from_string(t.clone()).ok()),
        ("from_bytes", HeaderName::from_bytes(t.clone().into_bytes()).ok()),
        ("parse", t.parse().ok()),
        ("From<&str>", catch_unwind(AssertUnwindSafe(|| HeaderName::from(t.as_str()))).ok()),
    ];
    for (how, n) in &all {
        ck!(n.is_some() == ok, "HeaderName by {} of {:?}: accepted = {}", how, t, n.is_some());
        if let Some(n) = n {
            eqv!(n.as_str(), want, "{}: as_str", how);
            eqv!(n.to_string(), want, "{}: Display", how);
            eqv!(format!("{:?}", n), format!("{:?}", want), "{}: Debug", how);
            eqv!(HeaderName::from(n), *n, "From<&HeaderName>");
            eqv!(h(n), h(all[0].1.as_ref().unwrap()), "{}: hash", how);
        }
    }
    // comparison with text ignores ASCII case and nothing else
    let base = s.ascii_str(8);
    let name = HeaderName::from_str(&base).map_err(|e| e.to_string())?;
    let other = if s.bool() { crate::p02::mutate(s, &base) } else { t };
    s.dbg("name", &base);
    s.dbg("other", &other);
    let eq = base.eq_ignore_ascii_case(&other);
    eqv!(name == *other.as_str(), eq, "name {:?} == str {:?}", base, other);
    eqv!(name == other.as_str(), eq, "name {:?} == &str {:?}", base, other);
    eqv!(name == other, eq, "name {:?} == String {:?}", base, other);
    eqv!(name == &other, eq, "name {:?} == &String {:?}", base, other);
    if let Ok(o) = HeaderName::from_str(&other) {
        eqv!(name == o, eq, "name {:?} == name {:?}", base, other);
        if eq {
            eqv!(h(&name), h(&o), "hashes of equal names");
        }
    }
    Ok(())
}

fn value_text(s: &mut Src) -> R {
    let t = if s.one_in(2) { s.any_str(8) } else { s.ascii_str(10) };
    s.dbg("text", &t);
    let ok = t.is_ascii();
    let v = HeaderValue::from_str(&t);
    ck!(v.is_ok() == ok, "HeaderValue::from_str({:?}) accepted = {}", t, v.is_ok());
    ck!(HeaderValue::try_from(t.as_str()).is_ok() == ok, "HeaderValue::try_from({:?})", t);
    let conv: Vec<(&str, Option<Vec<HeaderValue>>)> = vec![
        ("&str", t.as_str().to_header_values().ok().map(|i| i.collect())),
        ("String", t.clone().to_header_values().ok().map(|i| i.collect())),
        ("&String", (&t).to_header_values().ok().map(|i| i.collect())),
        ("Cow", Cow::Borrowed(t.as_str()).to_header_values().ok().map(|i| i.collect())),
    ];
    for (how, got) in conv {
        eqv!(got.map(|g| g.iter().map(|v| v.as_str().to_string()).collect::<Vec<_>>()), if ok { Some(vec![t.clone()]) } else { None }, "values denoted by {} {:?}", how, t);
    }
    let tuple = ("x-name", t.as_str());
    let made = catch_unwind(AssertUnwindSafe(|| (tuple.header_name(), tuple.header_value()))).ok();
    ck!(made.is_some() == ok, "a (name, value) pair with value {:?}: accepted = {}", t, made.is_some());
    if let Ok(v) = v {
        eqv!(v.as_str(), t, "as_str");
        eqv!(v.to_string(), t, "Display");
        eqv!(format!("{:?}", v), format!("{:?}", t), "Debug");
        let other = crate::p02::mutate(s, &t);
        s.dbg("other", &other);
        eqv!(v == *other.as_str(), t == other, "value {:?} == str {:?}", t, other);
        eqv!(v == other.as_str(), t == other, "value {:?} == &str {:?}", t, other);
        eqv!(v == other, t == other, "value {:?} == String {:?}", t, other);
        eqv!(v == &other, t == other, "value {:?} == &String {:?}", t, other);
        if let Ok(o) = HeaderValue::from_str(&other) {
            eqv!(v == o, t == other, "value {:?} == value {:?}", t, other);
            // a one-element list behaves like its element; a longer one equals no text
            let one = HeaderValues::from(v.clone());
            eqv!(one == *other.as_str(), t == other, "one-element list {:?} == {:?}", t, other);
            eqv!(one == other.as_str(), t == other, "one-element list {:?} == &{:?}", t, other);
            eqv!(one == other, t == other, "one-element list {:?} == String {:?}", t, other);
            eqv!(one == &other, t == other, "one-element list {:?} == &String {:?}", t, other);
            let two = HeaderValues::from(vec![v.clone(), o.clone()]);
            ck!(!(two == *t.as_str()) && !(two == *other.as_str()) && !(two == t) && !(two == &other) && !(two == t.as_str()), "a two-element list equals a text");
            eqv!(two == [t.as_str(), other.as_str()][..], true, "list == slice of texts");
            ck!(!(two == [t.as_str()][..]) && !(one == [t.as_str(), other.as_str()][..]), "lists of different lengths are equal");
            eqv!(two == [other.as_str(), t.as_str()][..], t == other, "list == slice in the other order");
            eqv!((two.get(0).map(|x| x.as_str()), two.get(1).map(|x| x.as_str()), two.get(2).map(|x| x.as_str())), (Some(t.as_str()), Some(other.as_str()), None), "get");
            eqv!(two.last().as_str(), other, "last");
            eqv!(two.as_str(), t, "first through Deref");
            eqv!(HeaderValue::from(two.clone()).as_str(), t, "HeaderValue::from(HeaderValues)");
            eqv!(two.contains(&o), true, "contains");
            eqv!(one.contains(&o), t == other, "one.contains");
            eqv!(two.iter().map(|x| x.as_str()).collect::<Vec<_>>(), vec![t.as_str(), other.as_str()], "iter");
            eqv!((&two).to_header_values().map_err(|e| e.to_string())?.map(|x| x.as_str().to_string()).collect::<Vec<_>>(), vec![t.clone(), other.clone()], "to_header_values of a list");
        }
    }
    Ok(())
}

fn constants(s: &mut Src) -> R {
    let (c, text) = CONSTANTS[s.below(CONSTANTS.len())];
    s.note("constant", text);
    eqv!(c.as_str(), text, "predefined name");
    ck!(!text.bytes().any(|b| b.is_ascii_uppercase()), "predefined name {} is not lower case", text);
    let p = HeaderName::from_str(&text.to_ascii_uppercase()).map_err(|e| e.to_string())?;
    eqv!(p, *c, "predefined name and parsed name");
    eqv!(h(&p), h(c), "hash of predefined and parsed name");
    Ok(())
}

/// No typed header's public constructors produce a value holding anything but ASCII.
fn typed(s: &mut Src) -> R {
    let t: String = s.any_str(6).replace("\\", "/");
    s.dbg("text", &t);
    let k = s.below(7);
    let v: (&str, Option<HeaderValue>) = match k {
        0 => ("Mime", format!("a/b;c=\"{}\"", t).parse::<http_types::mime::Mime>().ok().map(HeaderValue::from)),
        1 => ("ETag::new", Some(http_types::conditional::ETag::new(t).header_value())), // (documented: no backslash)
        2 => ("Authorization", Some(http_types::auth::Authorization::new(http_types::auth::AuthenticationScheme::Bearer, t).header_value())),
        3 => ("WwwAuthenticate", Some(http_types::auth::WwwAuthenticate::new(http_types::auth::AuthenticationScheme::Basic, t).header_value())),
        4 => ("BasicAuth", Some(http_types::auth::BasicAuth::new(t.clone(), t).header_value())),
        5 => ("Cookie", Some(HeaderValue::from(http_types::cookies::Cookie::new("n", t)))),
        _ => ("Forwarded", {
            let mut f = http_types::proxies::Forwarded::new();
            f.set_host(t.clone());
            Some(f.header_value())
        }),
    };
    if let Some(x) = v.1 {
        ck!(x.as_str().is_ascii(), "a {} header value holds non-ASCII text", v.0);
    }
    Ok(())
}

pub fn contracts() -> Vec<C> {
    vec![
        C { id: "name.bytes", clause: "HeaderName/HeaderValue::from_bytes: Ok iff ASCII, text lower-cased / unchanged", how: How::Rand(40000), f: name_bytes },
        C { id: "name.char", clause: "HeaderName/HeaderValue::from_str at every character below U+3000", how: How::All(0x3000), f: every_char },
        C { id: "name.text", clause: "every way of making and comparing a HeaderName", how: How::Rand(40000), f: name_text },
        C { id: "value.text", clause: "every way of making, denoting and comparing a HeaderValue / HeaderValues", how: How::Rand(40000), f: value_text },
        C { id: "name.constants", clause: "predefined names are lower case and equal their parsed form", how: How::All(1000), f: constants },
        C { id: "value.typed", clause: "typed headers produce ASCII values", how: How::Rand(20000), f: typed },
    ]
}
