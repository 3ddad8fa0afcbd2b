use crate::core::*;
use crate::{ck, eqv};
use http_types::content::{self, Accept, AcceptEncoding, ContentEncoding, MediaTypeProposal};
use http_types::headers::{Header, Headers};
use http_types::mime::Mime;
use http_types::transfer::{self, TransferEncoding, TE};
use http_types::StatusCode;
use std::str::FromStr;

/// A weight as its text is read: None when it is not a weight.
fn weight(t: &str) -> Option<f32> {
    let w: f32 = t.parse().ok()?;
    if w >= 0.0 && !w.is_sign_negative() && w <= 1.0 {
        Some(w)
    } else {
        None
    }
}
fn q(p: &str) -> Option<f32> {
    let p = p.trim();
    let c: Vec<char> = p.chars().take(2).collect();
    if c.len() == 2 && (c[0] == 'q' || c[0] == 'Q') && c[1] == '=' {
        weight(&p[2..])
    } else {
        None
    }
}
const CODES: &[&str] = &["gzip", "deflate", "br", "zstd", "identity", "chunked"];
/// Err: not a list; entries (coding, weight) and whether `*` was there.
type Parsed = Option<(bool, Vec<(String, Option<f32>)>)>;
fn ref_codings(lines: &[String], te: bool) -> Parsed {
    let mut out = vec![];
    let mut any = false;
    for l in lines {
        for e in l.split(',') {
            let e = e.trim();
            if e.is_empty() {
                continue;
            }
            if e == "*" {
                any = true;
                continue;
            }
            let mut ps = e.split(';');
            let name = ps.next().unwrap().trim();
            if !CODES.contains(&name) || (name == "chunked" && !te) {
                continue;
            }
            let w = match ps.next() {
                None => None,
                Some(p) => Some(q(p)?),
            };
            out.push((name.to_string(), w));
        }
    }
    Some((any, out))
}
/// Positions of the entries from the most to the least preferred.
fn order(ws: &[Option<f32>]) -> Vec<usize> {
    let mut ix: Vec<usize> = (0..ws.len()).collect();
    let key = |i: usize| ws[i].unwrap_or(-1.0);
    for a in 0..ix.len() {
        for b in a + 1..ix.len() {
            let (x, y) = (ix[a], ix[b]);
            if key(y) > key(x) || (key(y) == key(x) && y > x) {
                ix.swap(a, b);
            }
        }
    }
    ix
}
const WEIGHTS: &[&str] = &["0", "1", "0.0", "0.5", "0.500", "0.333", "1.0", "1.000", "0.001", "0.999", "0.8", ".5", "1e-1", "1.001", "-0", "-0.1", "2", "NaN", "inf", "", "x", "0.5=1", "0.5;", " 0.5", "+0.5", "\u{e9}"];
fn coding_line(s: &mut Src) -> String {
    let mut o = String::new();
    let n = s.size(5);
    for i in 0..n {
        if i > 0 {
            o.push_str(s.pick::<&str>(&[",", ", ", " , ", ",,", ", ,", ";", ""]));
        }
        o.push_str(s.pick::<&str>(&["gzip", "deflate", "br", "zstd", "identity", "chunked", "*", "GZIP", "x-gzip", "gzip", "br"]));
        match s.below(5) {
            0 | 1 => {
                o.push_str(s.pick::<&str>(&[";q=", "; q=", ";Q=", " ; q=", ";q =", ";", ";x=", ";q"]));
                o.push_str(s.pick::<&str>(WEIGHTS));
            }
            2 => {
                o.push_str(&format!(";q={:.3}", s.below(1001) as f32 / 1000.0));
            }
            _ => {}
        }
    }
    ascii(o)
}
fn ascii(t: String) -> String {
    t.chars().map(|c| if c.is_ascii() { c } else { '?' }).collect()
}
pub fn with(name: &str, lines: &[String]) -> Headers {
    let mut h = hs();
    for l in lines {
        h.append(name, l.as_str());
    }
    h
}
fn lines(s: &mut Src, f: fn(&mut Src) -> String) -> Vec<String> {
    (0..1 + s.below(2)).map(|_| { let t = f(s); s.padded(&t) }).collect()
}
fn c_enc(n: &str) -> content::Encoding {
    match n {
        "gzip" => content::Encoding::Gzip,
        "deflate" => content::Encoding::Deflate,
        "br" => content::Encoding::Brotli,
        "zstd" => content::Encoding::Zstd,
        _ => content::Encoding::Identity,
    }
}
fn t_enc(n: &str) -> transfer::Encoding {
    match n {
        "chunked" => transfer::Encoding::Chunked,
        "gzip" => transfer::Encoding::Gzip,
        "deflate" => transfer::Encoding::Deflate,
        "br" => transfer::Encoding::Brotli,
        "zstd" => transfer::Encoding::Zstd,
        _ => transfer::Encoding::Identity,
    }
}
fn pick_coding(v: &(bool, Vec<(String, Option<f32>)>), avail: &[&str]) -> Option<String> {
    let ws: Vec<Option<f32>> = v.1.iter().map(|x| x.1).collect();
    for i in order(&ws) {
        if ws[i] != Some(0.0) && avail.contains(&v.1[i].0.as_str()) {
            return Some(v.1[i].0.clone());
        }
    }
    if v.0 {
        for a in avail {
            if !v.1.iter().any(|e| e.0 == *a && e.1 == Some(0.0)) {
                return Some(a.to_string());
            }
        }
    }
    None
}
fn avail(s: &mut Src, te: bool) -> Vec<&'static str> {
    let n = s.size(4);
    (0..n).map(|_| CODES[s.below(if te { 6 } else { 5 })]).collect()
}
fn parse_enc(s: &mut Src) -> R {
    let ls = lines(s, coding_line);
    s.dbg("Accept-Encoding", &ls);
    let want = ref_codings(&ls, false);
    let got = AcceptEncoding::from_headers(with("accept-encoding", &ls));
    match (got, want) {
        (Err(e), None) => eqv!(e.status(), StatusCode::BadRequest, "status of a malformed list"),
        (Err(e), Some(_)) => return Err(format!("a well-formed list is refused: {}", e)),
        (Ok(_), None) => return Err("a malformed weight is accepted".into()),
        (Ok(a), Some(w)) => {
            let mut a = a.ok_or("header not found")?;
            let got: Vec<(String, Option<f32>)> = a.iter().map(|p| (p.encoding().to_string(), p.weight())).collect();
            eqv!(got, w.1, "entries");
            eqv!(a.wildcard(), w.0, "wildcard");
            // the value written reads back, weights to three decimals
            let h = a.header_value();
            let b = AcceptEncoding::from_headers(&written(s, "accept-encoding", &a)?);
            if got.is_empty() && !w.0 {
                // an empty list reads back as an empty list
                ck!(matches!(&b, Ok(Some(b)) if b.iter().count() == 0), "an empty list does not read back");
            } else {
                let b = b.map_err(|e| format!("the value written is refused: {} {}", h, e))?.unwrap();
                let back: Vec<(String, Option<String>)> = b.iter().map(|p| (p.encoding().to_string(), p.weight().map(|w| format!("{:.3}", w)))).collect();
                let want: Vec<(String, Option<String>)> = w.1.iter().map(|p| (p.0.clone(), p.1.map(|w| format!("{:.3}", w)))).collect();
                eqv!(back, want, "entries written and read back");
                eqv!(b.wildcard(), w.0, "wildcard written and read back");
            }
            let av = avail(s, false);
            s.dbg("available", &av);
            let list: Vec<content::Encoding> = av.iter().map(|n| c_enc(n)).collect();
            let choice = a.negotiate(&list);
            match (choice, pick_coding(&w, &av)) {
                (Ok(c), Some(n)) => eqv!(c.encoding().to_string(), n, "coding chosen"),
                (Err(e), None) => eqv!(e.status(), StatusCode::NotAcceptable, "status when nothing fits"),
                (Ok(c), None) => return Err(format!("{} is chosen though nothing is acceptable", c.encoding())),
                (Err(_), Some(n)) => return Err(format!("nothing is chosen though {} is acceptable", n)),
            }
            let ws: Vec<Option<f32>> = w.1.iter().map(|x| x.1).collect();
            let sorted: Vec<(String, Option<f32>)> = order(&ws).into_iter().map(|i| w.1[i].clone()).collect();
            let got: Vec<(String, Option<f32>)> = a.iter().map(|p| (p.encoding().to_string(), p.weight())).collect();
            eqv!(got, sorted, "entries in order of weight");
        }
    }
    Ok(())
}
fn parse_te(s: &mut Src) -> R {
    let ls = lines(s, coding_line);
    s.dbg("TE", &ls);
    let want = ref_codings(&ls, true);
    let got = TE::from_headers(with("te", &ls));
    match (got, want) {
        (Err(e), None) => eqv!(e.status(), StatusCode::BadRequest, "status of a malformed list"),
        (Err(e), Some(_)) => return Err(format!("a well-formed list is refused: {}", e)),
        (Ok(_), None) => return Err("a malformed weight is accepted".into()),
        (Ok(a), Some(w)) => {
            let mut a = a.ok_or("header not found")?;
            let got: Vec<(String, Option<f32>)> = a.iter().map(|p| (p.encoding().to_string(), p.weight())).collect();
            eqv!(got, w.1, "entries");
            eqv!(a.wildcard(), w.0, "wildcard");
            let h = a.header_value();
            let b = TE::from_headers(&written(s, "te", &a)?).map_err(|e| format!("the value written is refused: {} {}", h, e))?.unwrap();
            eqv!(b.iter().map(|p| p.encoding().to_string()).collect::<Vec<_>>(), w.1.iter().map(|p| p.0.clone()).collect::<Vec<_>>(), "codings written and read back");
            eqv!(b.wildcard(), w.0, "wildcard written and read back");
            let av = avail(s, true);
            s.dbg("available", &av);
            let list: Vec<transfer::Encoding> = av.iter().map(|n| t_enc(n)).collect();
            match (a.negotiate(&list), pick_coding(&w, &av)) {
                (Ok(c), Some(n)) => eqv!(c.encoding().to_string(), n, "coding chosen"),
                (Err(e), None) => eqv!(e.status(), StatusCode::NotAcceptable, "status when nothing fits"),
                (Ok(c), None) => return Err(format!("{} is chosen though nothing is acceptable", c.encoding())),
                (Err(_), Some(n)) => return Err(format!("nothing is chosen though {} is acceptable", n)),
            }
        }
    }
    Ok(())
}
const TYPES: &[&str] = &["text/html", "text/plain", "text/*", "*/*", "application/json", "text/html;charset=utf-8", "text/html;level=1", "image/*", "image/png", "text/html;level=1;charset=utf-8"];
fn media(s: &mut Src) -> String {
    let mut o = String::new();
    let n = s.size(4);
    for i in 0..n {
        if i > 0 {
            o.push_str(s.pick::<&str>(&[",", ", ", " ,", ",,", ", , "]));
        }
        if s.one_in(10) {
            o.push_str(s.pick::<&str>(&["*", "text", "/", "text/", "", "te xt/html"]));
            continue;
        }
        o.push_str(s.pick::<&str>(TYPES));
        match s.below(4) {
            0 => {
                o.push_str(s.pick::<&str>(&[";q=", "; q=", ";Q=", ";x=1;q=", ";q"]));
                o.push_str(s.pick::<&str>(WEIGHTS));
            }
            1 => o.push_str(&format!(";q={:.3}", s.below(1001) as f32 / 1000.0)),
            2 => o.push_str(s.pick::<&str>(&[";q=0", ";q=1", ";q=0.5"])),
            _ => {}
        }
    }
    ascii(o)
}
/// Media types by the library (they are P07's subject); weights, order and choice independently.
fn ref_media(ls: &[String]) -> Option<(bool, Vec<(Mime, f32)>)> {
    let mut out = vec![];
    let mut any = false;
    for l in ls {
        for e in l.split(',') {
            let e = e.trim();
            if e.is_empty() {
                continue;
            }
            if e == "*" {
                any = true;
                continue;
            }
            let mut m = Mime::from_str(e).ok()?;
            let w = match m.remove_param("q") {
                None => 1.0,
                Some(p) => weight(p.as_str())?,
            };
            out.push((m, w));
        }
    }
    Some((any, out))
}
fn parse_accept(s: &mut Src) -> R {
    let ls = lines(s, media);
    s.dbg("Accept", &ls);
    let want = ref_media(&ls);
    match (Accept::from_headers(with("accept", &ls)), want) {
        (Err(e), None) => eqv!(e.status(), StatusCode::BadRequest, "status of a malformed list"),
        (Err(e), Some(_)) => return Err(format!("a well-formed list is refused: {}", e)),
        (Ok(_), None) => return Err("a malformed entry is accepted".into()),
        (Ok(a), Some(w)) => {
            let mut a = a.ok_or("header not found")?;
            let got: Vec<(String, Option<f32>)> = a.iter().map(|p| (p.media_type().to_string(), p.weight())).collect();
            eqv!(got, w.1.iter().map(|x| (x.0.to_string(), Some(x.1))).collect::<Vec<_>>(), "entries");
            eqv!(a.wildcard(), w.0, "wildcard");
            for (p, x) in a.iter().zip(&w.1) {
                let o = Mime::from_str("other/type").unwrap();
                eqv!((*p == x.0, p == x.0, *p == o, p == o), (true, true, false, false), "entry against a media type");
            }
            let h = a.header_value();
            let b = Accept::from_headers(&written(s, "accept", &a)?).map_err(|e| format!("the value written is refused: {} {}", h, e))?.unwrap();
            eqv!(
                b.iter().map(|p| (p.media_type().to_string(), p.weight().map(|w| format!("{:.3}", w)))).collect::<Vec<_>>(),
                w.1.iter().map(|x| (x.0.to_string(), Some(format!("{:.3}", x.1)))).collect::<Vec<_>>(),
                "entries written and read back"
            );
            eqv!(b.wildcard(), w.0, "wildcard written and read back");
            let n = s.size(4);
            let av: Vec<Mime> = (0..n).map(|_| Mime::from_str(s.pick::<&str>(TYPES)).unwrap()).collect();
            s.dbg("available", av.iter().map(|m| m.to_string()).collect::<Vec<_>>());
            choose(&mut a, &w.1.iter().map(|x| (x.0.clone(), Some(x.1))).collect::<Vec<_>>(), w.0, &av)?;
        }
    }
    Ok(())
}
fn choose(a: &mut Accept, es: &[(Mime, Option<f32>)], any: bool, av: &[Mime]) -> R {
    let ws: Vec<Option<f32>> = es.iter().map(|x| x.1).collect();
    let mut pick: Option<String> = None;
    for i in order(&ws) {
        if ws[i] != Some(0.0) && pick.is_none() {
            pick = av.iter().find(|m| m.subset_eq(&es[i].0)).map(|m| m.to_string());
        }
    }
    if pick.is_none() && any {
        pick = av.iter().find(|m| !es.iter().any(|e| e.1 == Some(0.0) && m.subset_eq(&e.0))).map(|m| m.to_string());
    }
    match (a.negotiate(av), pick) {
        (Ok(c), Some(n)) => eqv!(c.header_value().as_str(), n, "media type chosen"),
        (Err(e), None) => eqv!(e.status(), StatusCode::NotAcceptable, "status when nothing fits"),
        (Ok(c), None) => return Err(format!("{} is chosen though nothing is acceptable", c.header_value())),
        (Err(_), Some(n)) => return Err(format!("nothing is chosen though {} is acceptable", n)),
    }
    let sorted: Vec<(String, Option<f32>)> = order(&ws).into_iter().map(|i| (es[i].0.to_string(), es[i].1)).collect();
    eqv!(a.iter().map(|p| (p.media_type().to_string(), p.weight())).collect::<Vec<_>>(), sorted, "entries in order of weight");
    Ok(())
}
fn built(s: &mut Src) -> R {
    // lists built in code, unweighted entries included, of any length
    let n = if s.one_in(4) { 25 + s.below(30) } else { s.below(8) };
    let mut a = Accept::new();
    let mut e = AcceptEncoding::new();
    eqv!((a.wildcard(), e.wildcard(), TE::new().wildcard()), (false, false, false), "wildcard of a new list");
    let mut es: Vec<(Mime, Option<f32>)> = vec![];
    let mut cs = vec![];
    for _ in 0..n {
        let m = Mime::from_str(s.pick::<&str>(TYPES)).unwrap();
        let c = CODES[s.below(5)];
        let w = match s.below(4) {
            0 => None,
            1 => Some(*s.pick(&[0.0, 1.0, 0.5])),
            _ => Some(s.below(6) as f32 / 5.0),
        };
        match w {
            None => {
                a.push(m.clone());
                e.push(c_enc(c));
            }
            Some(w) => {
                a.push(MediaTypeProposal::new(m.clone(), Some(w)).map_err(|e| e.to_string())?);
                e.push(content::EncodingProposal::new(c_enc(c), Some(w)).map_err(|e| e.to_string())?);
            }
        }
        es.push((m, w));
        cs.push((c.to_string(), w));
    }
    let any = s.bool();
    a.set_wildcard(any);
    e.set_wildcard(any);
    s.dbg("entries", es.iter().map(|x| (x.0.to_string(), x.1)).collect::<Vec<_>>());
    s.dbg("wildcard", any);
    let k = s.below(4);
    let av: Vec<Mime> = (0..k).map(|_| Mime::from_str(s.pick::<&str>(TYPES)).unwrap()).collect();
    s.dbg("available", av.iter().map(|m| m.to_string()).collect::<Vec<_>>());
    choose(&mut a, &es, any, &av)?;
    let av = avail(s, false);
    s.dbg("codings", &cs);
    s.dbg("available", &av);
    let list: Vec<content::Encoding> = av.iter().map(|n| c_enc(n)).collect();
    let got = e.negotiate(&list).ok().map(|c| c.encoding().to_string());
    eqv!(got, pick_coding(&(any, cs), &av), "coding chosen");
    Ok(())
}
fn new_weight(s: &mut Src) -> R {
    let w = match s.below(4) {
        0 => *s.pick(&[0.0f32, -0.0, 1.0, 1.0000001, -1.0, f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, 1e-45, 0.99999994]),
        _ => f32::from_bits(s.choose(1 << 32) as u32),
    };
    s.dbg("weight", w);
    let ok = w.to_bits() <= 1.0f32.to_bits();
    let a = content::EncodingProposal::new(content::Encoding::Gzip, Some(w));
    let b = transfer::EncodingProposal::new(transfer::Encoding::Gzip, Some(w));
    let c = MediaTypeProposal::new(http_types::mime::HTML, Some(w));
    eqv!((a.is_ok(), b.is_ok(), c.is_ok()), (ok, ok, ok), "weights outside 0.0..=1.0 are refused");
    if ok {
        eqv!(a.unwrap().weight(), Some(w), "weight kept");
        eqv!(b.unwrap().weight(), Some(w), "weight kept");
        eqv!(c.unwrap().weight(), Some(w), "weight kept");
        for x in ["gzip", "deflate", "br", "zstd", "identity"] {
            let a = content::EncodingProposal::new(c_enc(x), Some(w)).unwrap();
            let b = transfer::EncodingProposal::new(t_enc(x), Some(w)).unwrap();
            for y in ["gzip", "deflate", "br", "zstd", "identity"] {
                eqv!((a == c_enc(y), &a == c_enc(y), b == t_enc(y), &b == t_enc(y)), (x == y, x == y, x == y, x == y), "proposal of {} equals {}", x, y);
            }
        }
    }
    Ok(())
}
fn encodings(s: &mut Src) -> R {
    let ls: Vec<String> = (0..1 + s.below(3)).map(|_| if s.one_in(3) { s.ascii_str(6) } else { format!("{}{}{}", s.pick(&["", " "]), s.pick(&["gzip", "deflate", "br", "zstd", "identity", "chunked", "", "x", "gzip, br"]), s.pick(&["", " "])) }).collect();
    s.dbg("values", &ls);
    let want = |te: bool| ls.iter().rev().map(|l| l.trim()).find(|l| CODES.contains(l) && (te || *l != "chunked")).map(|l| l.to_string());
    match (ContentEncoding::from_headers(with("content-encoding", &ls)), want(false)) {
        (Ok(Some(c)), Some(w)) => {
            eqv!(c.encoding().to_string(), w, "content coding");
            eqv!(c.header_value().as_str(), w, "content coding written");
            let b = ContentEncoding::from_headers(written(s, "content-encoding", &c)?).map_err(|e| e.to_string())?.ok_or("gone")?;
            let (e, o) = (c.encoding(), if w == "gzip" { content::Encoding::Brotli } else { content::Encoding::Gzip });
            eqv!((b == e, b == &e, b == o, b == &o), (true, true, false, false), "content coding read back");
            eqv!(ContentEncoding::new(o).encoding(), o, "content coding made");
        }
        (Err(e), None) => eqv!(e.status(), StatusCode::BadRequest, "status of an unknown content coding"),
        (g, w) => return Err(format!("content coding: got {:?}, contract says {:?}", g.ok(), w)),
    }
    match (TransferEncoding::from_headers(with("transfer-encoding", &ls)), want(true)) {
        (Ok(Some(c)), Some(w)) => {
            eqv!(c.encoding().to_string(), w, "transfer coding");
            eqv!(c.header_value().as_str(), w, "transfer coding written");
            let b = TransferEncoding::from_headers(written(s, "transfer-encoding", &c)?).map_err(|e| e.to_string())?.ok_or("gone")?;
            let (e, o) = (c.encoding(), if w == "gzip" { transfer::Encoding::Brotli } else { transfer::Encoding::Gzip });
            eqv!((b == e, b == &e, b == o, b == &o), (true, true, false, false), "transfer coding read back");
            eqv!(TransferEncoding::new(o).encoding(), o, "transfer coding made");
        }
        (Err(e), None) => eqv!(e.status(), StatusCode::BadRequest, "status of an unknown transfer coding"),
        (g, w) => return Err(format!("transfer coding: got {:?}, contract says {:?}", g.ok(), w)),
    }
    Ok(())
}
fn absent(_: &mut Src) -> R {
    ck!(matches!(Accept::from_headers(hs()), Ok(None)), "Accept without the header");
    ck!(matches!(AcceptEncoding::from_headers(hs()), Ok(None)), "Accept-Encoding without the header");
    ck!(matches!(TE::from_headers(hs()), Ok(None)), "TE without the header");
    ck!(matches!(ContentEncoding::from_headers(hs()), Ok(None)), "Content-Encoding without the header");
    ck!(matches!(TransferEncoding::from_headers(hs()), Ok(None)), "Transfer-Encoding without the header");
    Ok(())
}
pub fn contracts() -> Vec<C> {
    vec![
        C { id: "neg.enc", clause: "AcceptEncoding::from_headers, negotiate, sort, header_value against the reference", how: How::Rand(60_000), f: parse_enc },
        C { id: "neg.te", clause: "TE::from_headers, negotiate, header_value against the reference", how: How::Rand(40_000), f: parse_te },
        C { id: "neg.accept", clause: "Accept::from_headers, negotiate, sort, header_value against the reference", how: How::Rand(60_000), f: parse_accept },
        C { id: "neg.built", clause: "negotiate on lists built in code (unweighted entries, long lists)", how: How::Rand(30_000), f: built },
        C { id: "neg.weight", clause: "proposals accept exactly the weights 0.0..=1.0", how: How::Rand(60_000), f: new_weight },
        C { id: "neg.coding", clause: "Content-Encoding and Transfer-Encoding: the last known coding, else 400", how: How::Rand(20_000), f: encodings },
        C { id: "neg.absent", clause: "an absent header is None", how: How::All(1), f: absent },
    ]
}
