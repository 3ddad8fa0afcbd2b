use crate::core::*;
use crate::p09::with;
use crate::{ck, eqv};
use http_types::headers::{Header, HeaderValue, Headers};
use http_types::security::{self, ContentSecurityPolicy, FrameOptions, ReferrerOptions, Source, StrictTransportSecurity, TimingAllowOrigin};
use http_types::{Response, Url};
use std::collections::BTreeMap;
use std::time::Duration;

fn ref_sts(t: &str) -> Option<(u64, bool, bool)> {
    let (mut age, mut sub, mut pre) = (None, false, false);
    for d in t.split(';') {
        let d = d.trim();
        let l = d.to_ascii_lowercase();
        if l == "includesubdomains" {
            sub = true;
        } else if l == "preload" {
            pre = true;
        } else if let Some(i) = l.find('=') {
            if &l[..i] == "max-age" {
                let n = &d[i + 1..];
                let m = n.strip_prefix('+').unwrap_or(n);
                if m.is_empty() || !m.bytes().all(|b| b.is_ascii_digit()) {
                    return None;
                }
                let mut v: u64 = 0;
                for b in m.bytes() {
                    v = v.checked_mul(10)?.checked_add((b - b'0') as u64)?;
                }
                age = Some(v);
            }
        }
    }
    Some((age?, sub, pre))
}
fn cased(s: &mut Src, t: &str) -> String {
    if s.bool() { t.into() } else { t.chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c }).collect() }
}
fn sts_line(s: &mut Src) -> String {
    let mut o = String::new();
    for i in 0..s.size(4) {
        if i > 0 {
            o.push_str(s.pick::<&str>(&[";", "; ", " ;\t", ";;", ",", " "]));
        }
        let d = match s.below(8) {
            0 => "preload".to_string(),
            1 => "includeSubDomains".to_string(),
            2 => s.pick::<&str>(&["", "preloaded", "include", "preload=1", "maxage=5", "max-age", "x=max-age=3", "=5", "max-age =7"]).to_string(),
            3 => format!("max-age={}", s.pick::<&str>(&["", "-1", "+3", "18446744073709551616", " 5", "5s", "0x5", "007"])),
            _ => format!("max-age={}", s.u64e()),
        };
        o.push_str(&cased(s, &d));
    }
    s.padded(&o)
}
fn sts(s: &mut Src) -> R {
    let n = s.below(3);
    let ls: Vec<String> = (0..n).map(|_| sts_line(s)).collect();
    s.dbg("lines", &ls);
    let h = with("strict-transport-security", &ls);
    let got = StrictTransportSecurity::from_headers(&h);
    match ls.last().map(|t| ref_sts(t)) {
        None => ck!(matches!(got, Ok(None)), "no header read as something"),
        Some(None) => match got {
            Err(e) => eqv!(u16::from(e.status()), 400, "status"),
            x => ck!(false, "accepted as {:?}", x),
        },
        Some(Some((age, sub, pre))) => match got {
            Ok(Some(x)) => eqv!((x.max_age(), x.include_subdomains(), x.preload()), (Duration::from_secs(age), sub, pre), "read"),
            x => ck!(false, "refused: {:?}", x.err().map(|e| e.to_string())),
        },
    }
    let d = Duration::new(s.u64e(), s.below(1_000_000_000) as u32);
    let (sub, pre) = (s.bool(), s.bool());
    s.dbg("policy", (d, sub, pre));
    let mut x = StrictTransportSecurity::new(Duration::from_secs(1));
    eqv!((x.max_age(), x.include_subdomains(), x.preload()), (Duration::from_secs(1), false, false), "new");
    x.set_max_age(d);
    x.set_include_subdomains(sub);
    x.set_preload(pre);
    let mut h = old(s, "strict-transport-security");
    x.apply_header(&mut h);
    let y = StrictTransportSecurity::from_headers(&h).map_err(|e| e.to_string())?.ok_or("gone")?;
    eqv!((y.max_age(), y.include_subdomains(), y.preload()), (Duration::from_secs(d.as_secs()), sub, pre), "read back");
    eqv!(StrictTransportSecurity::from(d).max_age(), d, "from Duration");
    eqv!(Duration::from(x), d, "into Duration");
    let z = StrictTransportSecurity::default();
    eqv!((z.max_age(), z.include_subdomains(), z.preload()), (Duration::from_secs(31536000), false, true), "default");
    Ok(())
}
const ORIGINS: &[&str] = &["https://example.com", "http://a.b:8080", "https://example.com/", "file:///x", "https://[::1]", "data:x", "https://user@h/p?q#f", "https://xn--n3h.net"];
fn ref_tao(ls: &[String]) -> Option<(Vec<Url>, bool)> {
    let (mut us, mut w) = (vec![], false);
    for l in ls {
        for e in l.split(',') {
            match e.trim() {
                "*" => w = true,
                "" | "null" | "\"null\"" => {}
                t => us.push(Url::parse(t).ok()?),
            }
        }
    }
    Some((us, w))
}
fn tao(s: &mut Src) -> R {
    let n = s.below(3);
    let ls: Vec<String> = (0..n)
        .map(|_| {
            let mut o = s.pick::<&str>(&["", "", " "]).to_string();
            for i in 0..s.size(4) {
                if i > 0 {
                    o.push_str(s.pick::<&str>(&[",", ", ", " , ", ",,", " "]));
                }
                match s.below(5) {
                    0 => o.push_str(s.pick::<&str>(&["*", "*", "null", "\"null\"", "", "**", "NULL", "example.com", "https://", "'*'"])),
                    _ => o.push_str(*s.pick(ORIGINS)),
                }
            }
            s.padded(&o)
        })
        .collect();
    s.dbg("lines", &ls);
    let h = with("timing-allow-origin", &ls);
    let got = TimingAllowOrigin::from_headers(&h);
    if ls.is_empty() {
        ck!(matches!(got, Ok(None)), "no header read as something");
    } else {
        match (got, ref_tao(&ls)) {
            (Err(e), None) => eqv!(u16::from(e.status()), 400, "status"),
            (Ok(Some(x)), Some((us, w))) => {
                eqv!((x.iter().cloned().collect::<Vec<_>>(), x.wildcard()), (us.clone(), w), "read");
                eqv!((&x).into_iter().cloned().collect::<Vec<_>>(), us, "borrowed");
                eqv!(x.into_iter().collect::<Vec<_>>(), us, "owned");
            }
            (g, w) => ck!(false, "got {:?}, expected {:?}", g.map_err(|e| e.to_string()), w),
        }
    }
    let us: Vec<Url> = (0..s.size(3)).map(|_| Url::parse(*s.pick(ORIGINS)).unwrap()).collect();
    let w = s.bool();
    s.dbg("origins", (&us, w));
    let mut x = TimingAllowOrigin::new();
    ck!(!x.wildcard() && x.iter().count() == 0, "a new Timing-Allow-Origin says something");
    us.iter().for_each(|u| x.push(u.clone()));
    x.set_wildcard(w);
    let mut want: Vec<String> = us.iter().map(|u| u.to_string()).collect();
    if w {
        want.push("*".into());
    }
    eqv!(x.header_value().as_str(), want.join(", ").as_str(), "written");
    let mut h = old(s, "timing-allow-origin");
    x.apply_header(&mut h);
    let y = TimingAllowOrigin::from_headers(&h).map_err(|e| e.to_string())?.ok_or("gone")?;
    eqv!((y.iter().cloned().collect::<Vec<_>>(), y.wildcard()), (us, w), "read back");
    Ok(())
}
const SOURCES: &[(Source, &str)] = &[(Source::SameOrigin, "'self'"), (Source::Src, "'src'"), (Source::None, "'none'"), (Source::UnsafeInline, "'unsafe-inline'"), (Source::Data, "data:"), (Source::Mediastream, "mediastream:"), (Source::Https, "https:"), (Source::Blob, "blob:"), (Source::Filesystem, "filesystem:"), (Source::StrictDynamic, "'strict-dynamic'"), (Source::UnsafeEval, "'unsafe-eval'"), (Source::Wildcard, "*")];
struct T(String);
impl AsRef<str> for T {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
type Add = fn(&mut ContentSecurityPolicy, T) -> &mut ContentSecurityPolicy;
const DIRS: &[(&str, Add)] = &[
    ("base-uri", |p, t| p.base_uri(t)),
    ("connect-src", |p, t| p.connect_src(t)),
    ("default-src", |p, t| p.default_src(t)),
    ("font-src", |p, t| p.font_src(t)),
    ("form-action", |p, t| p.form_action(t)),
    ("frame-ancestors", |p, t| p.frame_ancestors(t)),
    ("frame-src", |p, t| p.frame_src(t)),
    ("img-src", |p, t| p.img_src(t)),
    ("media-src", |p, t| p.media_src(t)),
    ("object-src", |p, t| p.object_src(t)),
    ("plugin-types", |p, t| p.plugin_types(t)),
    ("require-sri-for", |p, t| p.require_sri_for(t)),
    ("report-uri", |p, t| p.report_uri(t)),
    ("sandbox", |p, t| p.sandbox(t)),
    ("script-src", |p, t| p.script_src(t)),
    ("style-src", |p, t| p.style_src(t)),
    ("worker-src", |p, t| p.worker_src(t)),
];
fn csp(s: &mut Src) -> R {
    let (mut p, mut pol, mut only) = if s.bool() { (ContentSecurityPolicy::new(), vec![], false) } else { (ContentSecurityPolicy::default(), vec!["script-src 'self'; object-src 'self'".to_string()], false) };
    let mut dirs: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    let mut h = hs();
    let mut log = vec![];
    for _ in 0..s.size(9) {
        match s.below(12) {
            0 => {
                p.block_all_mixed_content();
                pol.push("block-all-mixed-content".into());
                log.push("block".to_string());
            }
            1 => {
                p.upgrade_insecure_requests();
                pol.push("upgrade-insecure-requests".into());
                log.push("upgrade".to_string());
            }
            2 if s.bool() => {
                p.report_only();
                only = true;
                log.push("report-only".to_string());
            }
            2 => {
                let ends: Vec<String> = (0..s.size(2))
                    .map(|_| {
                        let g = if s.bool() { format!("\"group\":\"{}\",", s.pick(&["a", "b c", "\\\""])) } else { String::new() };
                        let i = if s.bool() { format!(",\"include_subdomains\":{}", s.bool()) } else { String::new() };
                        format!("{{{}\"max_age\":{},\"endpoints\":[{{\"url\":\"{}\"}}]{}}}", g, s.below(3), s.pick(&["https://a/", ""]), i)
                    })
                    .collect();
                p.report_to(ends.iter().map(|t| serde_json::from_str(t).unwrap()).collect());
                log.push(format!("report-to {:?}", ends));
                pol.extend(ends.iter().map(|t| format!("report-to {}", t)));
            }
            3 => {
                p.apply(&mut h);
                log.push("apply".to_string());
                check_csp(&h, &pol, &dirs, only).map_err(|e| format!("{} after {:?}", e, log))?;
            }
            _ => {
                let (n, f) = *s.pick(DIRS);
                let t = if s.bool() { s.pick(SOURCES).1.to_string() } else { s.pick::<&str>(&["example.com", "https://a.b/c", "a b", "z", "A", "'nonce-x=='"]).to_string() };
                log.push(format!("{} {}", n, t));
                f(&mut p, T(t.clone()));
                dirs.entry(n).or_default().push(t);
            }
        }
    }
    s.dbg("calls", &log);
    p.apply(&mut h);
    check_csp(&h, &pol, &dirs, only)?;
    let mut r = Response::new(200);
    p.clone().apply(&mut r);
    check_csp(r.as_ref(), &pol, &dirs, only)?;
    let (x, t) = *s.pick(SOURCES);
    eqv!(x.to_string(), t.to_string(), "source displayed");
    eqv!(AsRef::<str>::as_ref(&x), t, "source as text");
    Ok(())
}
fn check_csp(h: &Headers, pol: &[String], dirs: &BTreeMap<&str, Vec<String>>, only: bool) -> R {
    let mut ps = pol.to_vec();
    for (d, v) in dirs {
        ps.push(format!("{} {}", d, v.join(" ")));
    }
    if !dirs.is_empty() {
        ps.sort();
    }
    let name = if only { "content-security-policy-report-only" } else { "content-security-policy" };
    let got: Vec<&str> = h.get(name).map(|v| v.iter().map(|v| v.as_str()).collect()).unwrap_or_default();
    eqv!(got, vec![ps.join("; ").as_str()], "policy");
    Ok(())
}
fn snap(h: &Headers) -> BTreeMap<String, Vec<String>> {
    h.iter().map(|(n, v)| (n.to_string(), v.iter().map(|v| v.to_string()).collect())).collect()
}
fn fixed(s: &mut Src) -> R {
    let mut h = hs();
    for _ in 0..s.size(5) {
        let n = *s.pick(&["x-powered-by", "x-frame-options", "X-XSS-Protection", "Strict-Transport-Security", "referrer-policy", "x-content-type-options", "X-DNS-Prefetch-Control", "x-other", "content-type"]);
        let v = *s.pick(&["a", "b", "off", ""]);
        let _ = h.append(n, v);
    }
    let mut m = snap(&h);
    s.dbg("headers", &m);
    let set = |m: &mut BTreeMap<String, Vec<String>>, n: &str, v: &str| {
        m.insert(n.into(), vec![v.into()]);
    };
    for _ in 0..1 + s.below(4) {
        let k = s.below(8);
        s.note("call", k);
        match k {
            0 => {
                security::default(&mut h);
                set(&mut m, "x-dns-prefetch-control", "on");
                set(&mut m, "x-content-type-options", "nosniff");
                set(&mut m, "x-frame-options", "sameorigin");
                m.remove("x-powered-by");
                set(&mut m, "strict-transport-security", "max-age=5184000");
                set(&mut m, "x-xss-protection", "1; mode=block");
            }
            1 => {
                security::dns_prefetch_control(&mut h);
                set(&mut m, "x-dns-prefetch-control", "on");
            }
            2 => {
                let (o, t) = *s.pick(&[(None, "sameorigin"), (Some(FrameOptions::SameOrigin), "sameorigin"), (Some(FrameOptions::Deny), "deny")]);
                security::frameguard(&mut h, o);
                set(&mut m, "x-frame-options", t);
            }
            3 => {
                let v = if s.bool() { Some("Tide/Rust") } else { None };
                security::powered_by(&mut h, v.map(|v| v.parse::<HeaderValue>().unwrap()));
                match v {
                    Some(v) => set(&mut m, "x-powered-by", v),
                    None => {
                        m.remove("x-powered-by");
                    }
                }
            }
            4 => {
                security::hsts(&mut h);
                set(&mut m, "strict-transport-security", "max-age=5184000");
            }
            5 => {
                security::nosniff(&mut h);
                set(&mut m, "x-content-type-options", "nosniff");
            }
            6 => {
                security::xss_filter(&mut h);
                set(&mut m, "x-xss-protection", "1; mode=block");
            }
            _ => {
                use ReferrerOptions::*;
                let (o, t) = *s.pick(&[(None, "no-referrer"), (Some(NoReferrer), "no-referrer"), (Some(NoReferrerDowngrade), "no-referrer-when-downgrade"), (Some(SameOrigin), "same-origin"), (Some(Origin), "origin"), (Some(StrictOrigin), "strict-origin"), (Some(CrossOrigin), "origin-when-cross-origin"), (Some(StrictCrossOrigin), "strict-origin-when-cross-origin"), (Some(UnsafeUrl), "unsafe-url")]);
                security::referrer_policy(&mut h, o);
                m.entry("referrer-policy".into()).or_default().push(t.into());
            }
        }
        eqv!(snap(&h), m, "headers");
    }
    Ok(())
}
pub fn contracts() -> Vec<C> {
    vec![
        C { id: "security.hsts", clause: "Strict-Transport-Security is read exactly and reads back", how: How::Rand(60_000), f: sts },
        C { id: "security.timing_origin", clause: "Timing-Allow-Origin is read exactly and reads back", how: How::Rand(40_000), f: tao },
        C { id: "security.csp", clause: "the policy written is the policy built, at every apply", how: How::Rand(40_000), f: csp },
        C { id: "security.fixed", clause: "each protection sets its header and touches no other", how: How::Rand(30_000), f: fixed },
    ]
}
