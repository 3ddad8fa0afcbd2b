use crate::core::*;
use crate::{ck, eqv};
use http_types::StatusCode;
use std::convert::TryFrom;

/// The registered codes and their phrases, written down independently of the crate.
pub const TABLE: &[(u16, &str)] = &[
    (100, "Continue"), (101, "Switching Protocols"), (103, "Early Hints"),
    (200, "OK"), (201, "Created"), (202, "Accepted"), (203, "Non Authoritative Information"), (204, "No Content"),
    (205, "Reset Content"), (206, "Partial Content"), (207, "Multi-Status"), (226, "Im Used"),
    (300, "Multiple Choice"), (301, "Moved Permanently"), (302, "Found"), (303, "See Other"), (304, "Not Modified"),
    (307, "Temporary Redirect"), (308, "Permanent Redirect"),
    (400, "Bad Request"), (401, "Unauthorized"), (402, "Payment Required"), (403, "Forbidden"), (404, "Not Found"),
    (405, "Method Not Allowed"), (406, "Not Acceptable"), (407, "Proxy Authentication Required"), (408, "Request Timeout"),
    (409, "Conflict"), (410, "Gone"), (411, "Length Required"), (412, "Precondition Failed"), (413, "Payload Too Large"),
    (414, "URI Too Long"), (415, "Unsupported Media Type"), (416, "Requested Range Not Satisfiable"), (417, "Expectation Failed"),
    (418, "I'm a teapot"), (421, "Misdirected Request"), (422, "Unprocessable Entity"), (423, "Locked"), (424, "Failed Dependency"),
    (425, "Too Early"), (426, "Upgrade Required"), (428, "Precondition Required"), (429, "Too Many Requests"),
    (431, "Request Header Fields Too Large"), (451, "Unavailable For Legal Reasons"),
    (500, "Internal Server Error"), (501, "Not Implemented"), (502, "Bad Gateway"), (503, "Service Unavailable"),
    (504, "Gateway Timeout"), (505, "HTTP Version Not Supported"), (506, "Variant Also Negotiates"), (507, "Insufficient Storage"),
    (508, "Loop Detected"), (510, "Not Extended"), (511, "Network Authentication Required"),
];

fn norm(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect()
}

fn num(s: &mut Src) -> R {
    let n = s.choose(65536) as u16;
    s.note("number", n);
    let want = TABLE.iter().find(|t| t.0 == n);
    match (StatusCode::try_from(n), want) {
        (Ok(c), Some((_, reason))) => {
            let back: u16 = c.into();
            eqv!(back, n, "u16::from(StatusCode::try_from(n))");
            eqv!(StatusCode::try_from(back).unwrap(), c, "code -> number -> code");
            eqv!(c.canonical_reason(), *reason, "canonical_reason");
            eqv!(c.to_string(), format!("{}: {}", n, reason), "Display");
            eqv!(format!("{:?}", c), format!("{}: {}", n, reason), "Debug");
            eqv!([c.is_informational(), c.is_success(), c.is_redirection(), c.is_client_error(), c.is_server_error()],
                 [n / 100 == 1, n / 100 == 2, n / 100 == 3, n / 100 == 4, n / 100 == 5], "class predicates of {}", n);
            for m in [n, n.wrapping_add(1), n.wrapping_sub(1), n ^ 0x100, 0, 200] {
                eqv!(c == m, n == m, "StatusCode({}) == {}", n, m);
                eqv!(m == c, n == m, "{} == StatusCode({})", m, n);
            }
            let j = serde_json::to_string(&c).map_err(|e| e.to_string())?;
            eqv!(j, n.to_string(), "serialised form");
            let k: StatusCode = serde_json::from_str(&j).map_err(|e| format!("deserialise {}: {}", j, e))?;
            eqv!(k, c, "serde round trip");
            let e = http_types::Error::from_str(c, "x");
            eqv!(e.status(), c, "Error::status");
        }
        (Err(_), None) => {}
        (Ok(c), None) => return Err(format!("try_from({}) accepted an unregistered code as {:?}", n, c)),
        (Err(e), Some(_)) => return Err(format!("try_from({}) rejected a registered code: {}", n, e)),
    }
    let _ = norm;
    Ok(())
}

fn serde_ints(s: &mut Src) -> R {
    let v: i128 = match s.choose(4) {
        0 => s.u64e() as i128,
        1 => -(s.u64e() as i128 / 2),
        2 => s.choose(600) as i128 + 65536 * s.range(1, 400) as i128,
        _ => s.choose(600) as i128 - 65536 * s.range(1, 40) as i128,
    };
    s.note("json number", v);
    let want = TABLE.iter().any(|t| t.0 as i128 == v);
    let got: Result<StatusCode, _> = serde_json::from_str(&v.to_string());
    ck!(got.is_ok() == want, "deserialising {}: accepted = {}, registered = {}", v, got.is_ok(), want);
    if let Ok(c) = got {
        eqv!(u16::from(c) as i128, v, "deserialised number");
    }
    // the typed visitor entry points
    use serde::de::{value::*, Deserialize, IntoDeserializer};
    let typed: Vec<(&str, Option<Result<StatusCode, Error>>)> = vec![
        ("i16", i16::try_from(v).ok().map(|x| { let d: I16Deserializer<Error> = x.into_deserializer(); StatusCode::deserialize(d) })),
        ("u16", u16::try_from(v).ok().map(|x| { let d: U16Deserializer<Error> = x.into_deserializer(); StatusCode::deserialize(d) })),
        ("i32", i32::try_from(v).ok().map(|x| { let d: I32Deserializer<Error> = x.into_deserializer(); StatusCode::deserialize(d) })),
        ("u32", u32::try_from(v).ok().map(|x| { let d: U32Deserializer<Error> = x.into_deserializer(); StatusCode::deserialize(d) })),
        ("i64", i64::try_from(v).ok().map(|x| { let d: I64Deserializer<Error> = x.into_deserializer(); StatusCode::deserialize(d) })),
        ("u64", u64::try_from(v).ok().map(|x| { let d: U64Deserializer<Error> = x.into_deserializer(); StatusCode::deserialize(d) })),
    ];
    for (name, r) in typed {
        if let Some(r) = r {
            ck!(r.is_ok() == want, "deserialising the {} {}: accepted = {}, registered = {}", name, v, r.is_ok(), want);
        }
    }
    Ok(())
}

pub fn contracts() -> Vec<C> {
    vec![
        C { id: "status.numbers", clause: "StatusCode::{try_from, into u16, is_*, canonical_reason, eq, fmt}: ensures clauses, whole u16 domain", how: How::All(65536), f: num },
        C { id: "status.serde", clause: "StatusCode Deserialize accepts exactly the registered integers", how: How::Rand(20000), f: serde_ints },
    ]
}
