use crate::core::*;
use crate::p09::with;
use crate::{ck, eqv};
use http_types::auth::{AuthenticationScheme, Authorization, BasicAuth, WwwAuthenticate};
use http_types::headers::Header;
use std::str::FromStr;
use AuthenticationScheme::*;

const SCHEMES: &[(AuthenticationScheme, &str)] = &[(Basic, "Basic"), (Bearer, "Bearer"), (Digest, "Digest"), (Hoba, "HOBA"), (Mutual, "Mutual"), (Negotiate, "Negotiate"), (OAuth, "OAuth"), (ScramSha1, "SCRAM-SHA-1"), (ScramSha256, "SCRAM-SHA-256"), (Vapid, "vapid")];
fn ref_scheme(t: &str) -> Option<AuthenticationScheme> {
    SCHEMES.iter().find(|(_, n)| n.to_lowercase() == t.to_lowercase()).map(|(s, _)| *s)
}
fn cased(s: &mut Src, t: &str) -> String {
    t.chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
fn scheme_text(s: &mut Src) -> String {
    let (_, n) = *s.pick(SCHEMES);
    match s.below(6) {
        0..=2 => n.to_string(),
        3 => cased(s, n),
        4 => crate::p02::mutate(s, n),
        _ => s.frags(&["Bas", "ic", "Bearer", "SCRAM", "-SHA", "-1", "-256", "\u{212a}", "O", "auth", " "], 3),
    }
}
fn scheme(s: &mut Src) -> R {
    let t = scheme_text(s);
    s.note("text", &t);
    match (AuthenticationScheme::from_str(&t), ref_scheme(&t)) {
        (Ok(a), Some(b)) => eqv!(a, b, "scheme"),
        (Err(e), None) => eqv!(u16::from(e.status()), 400, "status"),
        (a, b) => ck!(false, "read {:?}, expected {:?}", a.ok(), b),
    }
    let (x, n) = *s.pick(SCHEMES);
    eqv!(x.to_string(), n.to_string(), "written");
    Ok(())
}
fn ref_cred(t: &str) -> Option<(AuthenticationScheme, String)> {
    let (a, b) = t.split_once(' ')?;
    Some((ref_scheme(a)?, b.to_string()))
}
fn line(s: &mut Src) -> String {
    let mut t = scheme_text(s);
    t.push_str(*s.pick(&[" ", " ", " ", "  ", "\t", ""]));
    t.push_str(&s.frags(&["abc", " ", "=", "realm", "=\"", "\"", ",", "\\", "YTpi", "Og==", ":", "0xdead"], 5));
    t
}
fn lines(s: &mut Src, f: fn(&mut Src) -> String) -> Vec<String> {
    let n = s.below(3);
    (0..n).map(|_| { let t = f(s); if s.one_in(6) { s.padded(&t) } else { t } }).filter(|t| t.is_ascii()).collect()
}
fn cred(s: &mut Src) -> R {
    let ls = lines(s, line);
    s.dbg("lines", &ls);
    let h = with("authorization", &ls);
    let got = Authorization::from_headers(&h);
    match ls.last().map(|t| ref_cred(t)) {
        None => ck!(matches!(got, Ok(None)), "no header read as {:?}", got),
        Some(None) => match got {
            Err(e) => eqv!(u16::from(e.status()), 400, "status"),
            x => ck!(false, "accepted as {:?}", x),
        },
        Some(Some((a, c))) => match got {
            Ok(Some(x)) => eqv!((x.scheme(), x.credentials().to_string()), (a, c), "read"),
            x => ck!(false, "refused: {:?}", x.err().map(|e| e.to_string())),
        },
    }
    // written and read back
    let (a, n) = *s.pick(SCHEMES);
    let c = s.ascii_str(12);
    s.note("credentials", &c);
    let (a2, c2) = (s.pick(SCHEMES).0, s.ascii_str(6));
    let mut x = Authorization::new(a2, c2.clone());
    if s.bool() {
        x.set_scheme(a);
        eqv!((x.scheme(), x.credentials()), (a, c2.as_str()), "set_scheme");
        x.set_credentials(c.clone());
    } else {
        x.set_credentials(c.clone());
        eqv!((x.scheme(), x.credentials()), (a2, c.as_str()), "set_credentials");
        x.set_scheme(a);
    }
    eqv!(x.header_value().as_str(), format!("{} {}", n, c).as_str(), "written");
    let mut h = old(s, "authorization");
    x.apply_header(&mut h);
    let y = Authorization::from_headers(&h).map_err(|e| e.to_string())?.ok_or("gone")?;
    eqv!((y.scheme(), y.credentials()), (a, c.as_str()), "read back");
    Ok(())
}
const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn enc(b: &[u8]) -> String {
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            o.push(if i <= c.len() { B64[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    o
}
/// Neither canonical base64 nor outside its alphabet: what a decoder makes of it is not ours to say.
fn lax(t: &str) -> bool {
    dec(t).is_none() && t.bytes().all(|b| b == b'=' || B64.contains(&b))
}
fn dec(t: &str) -> Option<Vec<u8>> {
    let body = t.trim_end_matches('=');
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for c in body.bytes() {
        acc = acc << 6 | B64.iter().position(|x| *x == c)? as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    if enc(&out) == t { Some(out) } else { None }
}
fn userpass(t: &str) -> Option<(String, String)> {
    let s = String::from_utf8(dec(t)?).ok()?;
    let (u, p) = s.split_once(':')?;
    Some((u.to_string(), p.to_string()))
}
fn token68(s: &mut Src) -> String {
    match s.below(4) {
        0 => s.frags(&["YTpi", "Og==", "YQ==", "=", "A", "_", "-", "/", "w", "6Q", "Og"], 4),
        1 => {
            let b: Vec<u8> = (0..s.size(5)).map(|_| *s.pick(&[b'a', b':', 0xff, 0xc3, 0xa9, b' '])).collect();
            enc(&b)
        }
        _ => enc(s.frags(&["user", ":", "pass", "::", "\u{e9}", " ", "", "\u{1f512}"], 4).as_bytes()),
    }
}
fn basic(s: &mut Src) -> R {
    let t = token68(s);
    if lax(&t) {
        return Ok(());
    }
    s.note("credentials", &t);
    let show = |r: http_types::Result<BasicAuth>| r.map(|b| (b.username().to_string(), b.password().to_string())).map_err(|e| u16::from(e.status()));
    eqv!(show(BasicAuth::from_credentials(&t)), userpass(&t).ok_or(400), "from_credentials");
    let l = format!("{} {}", scheme_text(s), t);
    let h = with("authorization", &[l.clone()]);
    if l.is_ascii() && !ref_cred(&l).map_or(false, |c| lax(&c.1)) {
        s.note("line", &l);
        let want = match ref_cred(&l) {
            Some((Basic, c)) => userpass(&c).ok_or(400),
            _ => Err(400),
        };
        let got = match BasicAuth::from_headers(&h) {
            Ok(None) => return Err("header not seen".into()),
            Ok(Some(b)) => show(Ok(b)),
            Err(e) => show(Err(e)),
        };
        eqv!(got, want, "from_headers");
    }
    ck!(matches!(BasicAuth::from_headers(hs()), Ok(None)), "no header");
    let u: String = s.any_str(8).chars().filter(|c| *c != ':').collect();
    let p = s.any_str(8);
    s.dbg("user, password", (&u, &p));
    let b = BasicAuth::new(&u, &p);
    eqv!((b.username(), b.password()), (u.as_str(), p.as_str()), "new");
    eqv!(b.header_value().as_str(), format!("Basic {}", enc(format!("{}:{}", u, p).as_bytes())).as_str(), "written");
    let mut h = old(s, "authorization");
    b.apply_header(&mut h);
    let y = BasicAuth::from_headers(&h).map_err(|e| e.to_string())?.ok_or("gone")?;
    eqv!((y.username(), y.password()), (u.as_str(), p.as_str()), "read back");
    Ok(())
}
/// The text a quoted-string at the start of t stands for.
pub fn unquote(t: &str) -> Option<String> {
    let mut it = t.chars();
    if it.next()? != '"' {
        return None;
    }
    let mut o = String::new();
    loop {
        let c = it.next()?;
        match c {
            '"' => return Some(o),
            '\\' => {
                let e = it.next()?;
                if e != '\t' && (e < ' ' || e == '\u{7f}') {
                    return None;
                }
                o.push(e);
            }
            c if c != '\t' && (c < ' ' || c == '\u{7f}') => return None,
            c => o.push(c),
        }
    }
}
pub fn quote(t: &str) -> String {
    format!("\"{}\"", t.replace('\\', "\\\\").replace('"', "\\\""))
}
fn ref_challenge(t: &str) -> Option<(AuthenticationScheme, String)> {
    let (a, r) = ref_cred(t)?;
    Some((a, unquote(r.trim_start().strip_prefix("realm=")?)?))
}
fn challenge_line(s: &mut Src) -> String {
    let mut t = scheme_text(s);
    t.push_str(*s.pick(&[" ", " ", " ", "  ", " \t", ""]));
    t.push_str(*s.pick(&["realm=", "realm=", "realm=", "realm", "Realm=", "charset=\"UTF-8\", realm=", "x"]));
    t.push_str(*s.pick(&["\"", "\"", "\"", ""]));
    t.push_str(&s.frags(&["abc", " ", "\\\"", "\\\\", "\\a", "\"", "\\", ",", "\t", "=", "\u{1}"], 5));
    t.push_str(*s.pick(&["\"", "\"", "\", charset=\"UTF-8\"", ""]));
    t
}
fn printable(s: &mut Src) -> String {
    if s.bool() {
        s.frags(&["Access to the site", "\"", "\\", "realm=", "\\\"", ",", " ", "\t", "x"], 5)
    } else {
        s.ascii_str(10).chars().filter(|c| *c == '\t' || (*c >= ' ' && *c <= '~')).collect()
    }
}
fn challenge(s: &mut Src) -> R {
    let ls = lines(s, challenge_line);
    s.dbg("lines", &ls);
    let h = with("www-authenticate", &ls);
    let got = WwwAuthenticate::from_headers(&h);
    match ls.last().map(|t| ref_challenge(t)) {
        None => ck!(matches!(got, Ok(None)), "no header read as {:?}", got),
        Some(None) => match got {
            Err(e) => eqv!(u16::from(e.status()), 400, "status"),
            x => ck!(false, "accepted as {:?}", x),
        },
        Some(Some((a, c))) => match got {
            Ok(Some(x)) => eqv!((x.scheme(), x.realm().to_string()), (a, c), "read"),
            x => ck!(false, "refused: {:?}", x.err().map(|e| e.to_string())),
        },
    }
    let (a, n) = *s.pick(SCHEMES);
    let c = printable(s);
    s.note("realm", &c);
    let mut x = WwwAuthenticate::new(s.pick(SCHEMES).0, "first".into());
    x.set_scheme(a);
    eqv!((x.scheme(), x.realm()), (a, "first"), "set_scheme");
    x.set_realm(c.clone());
    eqv!((x.scheme(), x.realm()), (a, c.as_str()), "set_realm");
    eqv!(x.header_value().as_str(), format!("{} realm={}, charset=\"UTF-8\"", n, quote(&c)).as_str(), "written");
    let mut h = old(s, "www-authenticate");
    x.apply_header(&mut h);
    let y = WwwAuthenticate::from_headers(&h).map_err(|e| e.to_string())?.ok_or("gone")?;
    eqv!((y.scheme(), y.realm()), (a, c.as_str()), "read back");
    Ok(())
}
pub fn contracts() -> Vec<C> {
    vec![
        C { id: "auth.scheme", clause: "scheme names are read in any case, and only they", how: How::Rand(20_000), f: scheme },
        C { id: "auth.credentials", clause: "Authorization is read exactly and reads back", how: How::Rand(40_000), f: cred },
        C { id: "auth.basic", clause: "Basic credentials are read exactly and read back", how: How::Rand(40_000), f: basic },
        C { id: "auth.challenge", clause: "WWW-Authenticate is read exactly and reads back", how: How::Rand(40_000), f: challenge },
    ]
}
