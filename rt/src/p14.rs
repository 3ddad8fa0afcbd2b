use crate::core::*;
use crate::p09::with;
use crate::{ck, eqv};
use http_types::headers::Header;
use http_types::trace::TraceContext;

fn hex(t: &str, max: u128) -> Option<u128> {
    let t = t.strip_prefix('+').unwrap_or(t);
    if t.is_empty() {
        return None;
    }
    let mut n: u128 = 0;
    for c in t.chars() {
        n = n.checked_mul(16)?.checked_add(c.to_digit(16)? as u128)?;
    }
    if n <= max { Some(n) } else { None }
}
type T = (u8, u128, u64, u8);
fn reference(t: &str) -> Option<T> {
    let p: Vec<&str> = t.split('-').collect();
    if p.len() < 4 {
        return None;
    }
    Some((hex(p[0], 255)? as u8, hex(p[1], u128::MAX)?, hex(p[2], u64::MAX as u128)? as u64, hex(p[3], 255)? as u8))
}
fn number(s: &mut Src, digits: usize) -> String {
    match s.below(8) {
        0 => s.frags(&["0", "f", "F", "g", "+", "", " ", "\u{e9}", "00", "ff"], 4),
        1 => "f".repeat(digits + s.below(2)),
        2 => format!("1{}", "0".repeat(digits - s.below(2))),
        3 => format!("{:x}", s.u64e() & 0xff),
        4 => format!("{:X}", s.u64e()),
        _ => {
            let n = s.range(1, digits as u64) as usize;
            s.str_of(&['0', '1', '8', '9', 'a', 'f'], n).to_string()
        }
    }
}
fn line(s: &mut Src) -> String {
    let mut o = number(s, 2);
    let parts = if s.one_in(4) { s.below(6) } else { 4 };
    for d in [32, 16, 2, 2, 2].iter().take(parts.saturating_sub(1)) {
        o.push('-');
        o.push_str(&number(s, *d));
    }
    o
}
fn sampled_rules(s: &mut Src, c: &mut TraceContext, flags: u8) -> R {
    eqv!(c.sampled(), flags & 1 == 1, "sampled");
    let (id, v, t, p) = (c.id(), c.version(), c.trace_id(), c.parent_id());
    let to = s.bool();
    c.set_sampled(to);
    eqv!(c.sampled(), to, "set_sampled");
    eqv!((c.id(), c.version(), c.trace_id(), c.parent_id()), (id, v, t, p), "set_sampled changed something else");
    let f = u8::from_str_radix(&c.header_value().as_str()[53..], 16).map_err(|e| e.to_string())?;
    eqv!(f, flags & !1 | to as u8, "flags after set_sampled");
    Ok(())
}
fn read(s: &mut Src) -> R {
    let n = s.below(3);
    let ls: Vec<String> = (0..n).map(|_| { let t = line(s); if s.one_in(6) { s.padded(&t) } else { t } }).filter(|t| t.is_ascii()).collect();
    s.dbg("lines", &ls);
    let got = TraceContext::from_headers(with("traceparent", &ls));
    match ls.first().map(|t| reference(t)) {
        None => ck!(matches!(got, Ok(None)), "no header read as {:?}", got),
        Some(None) => match got {
            Err(e) => eqv!(u16::from(e.status()), 400, "status"),
            x => ck!(false, "accepted as {:?}", x),
        },
        Some(Some((v, t, p, f))) => match got {
            Ok(Some(mut c)) => {
                eqv!((c.version(), c.trace_id(), c.parent_id(), c.sampled()), (v, t, Some(p), f & 1 == 1), "read");
                eqv!(c.header_value().as_str(), format!("{:02x}-{:032x}-{:016x}-{:02x}", v, t, c.id(), f).as_str(), "written");
                sampled_rules(s, &mut c, f)?;
            }
            x => ck!(false, "refused: {:?}", x.err().map(|e| e.to_string())),
        },
    }
    Ok(())
}
fn family(s: &mut Src) -> R {
    let mut c = TraceContext::new();
    eqv!((c.version(), c.parent_id(), c.sampled()), (0, None, true), "new");
    sampled_rules(s, &mut c, 1)?;
    for _ in 0..s.range(1, 4) {
        let k = if s.bool() {
            let k = c.child();
            eqv!((k.parent_id(), k.trace_id(), k.version(), k.sampled()), (Some(c.id()), c.trace_id(), c.version(), c.sampled()), "child");
            k
        } else {
            // the next service reads what this one sends
            let mut h = old(s, "traceparent");
            c.apply_header(&mut h);
            let k = TraceContext::from_headers(&h).map_err(|e| e.to_string())?.ok_or("gone")?;
            eqv!((k.parent_id(), k.trace_id(), k.version(), k.sampled()), (Some(c.id()), c.trace_id(), c.version(), c.sampled()), "sent on");
            k
        };
        c = k;
        if s.bool() {
            c.set_sampled(s.bool());
        }
    }
    Ok(())
}
pub fn contracts() -> Vec<C> {
    vec![
        C { id: "trace.read", clause: "a traceparent is read exactly, or refused with 400", how: How::Rand(60_000), f: read },
        C { id: "trace.family", clause: "children and receivers continue the trace of the context they come from", how: How::Rand(20_000), f: family },
    ]
}
