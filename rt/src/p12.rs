use crate::core::*;
use crate::p01::TABLE;
use crate::{ck, eqv};
use http_types::{bail, bail_status, ensure, ensure_eq, ensure_eq_status, ensure_status, format_err, format_err_status, Error, Status, StatusCode};
use std::convert::TryFrom;
use std::fmt;

#[derive(Debug, PartialEq, Clone)]
struct Mine(u64);
impl fmt::Display for Mine {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "mine {}", self.0)
    }
}
impl std::error::Error for Mine {}
fn code(s: &mut Src) -> StatusCode {
    StatusCode::try_from(s.pick(TABLE).0).unwrap()
}
// an error carrying Mine(n): status, what it says, what it gives back
fn carries(mut e: Error, status: StatusCode, n: u64, named: bool) -> R {
    eqv!(e.status(), status, "status");
    eqv!(*AsRef::<StatusCode>::as_ref(&e), status, "status by reference");
    eqv!(e.to_string(), format!("mine {}", n), "text");
    ck!(format!("{:?}", e).contains(&format!("mine {}", n)) || format!("{:?}", e).contains(&n.to_string()), "debug text {:?}", e);
    eqv!(e.downcast_ref::<Mine>(), Some(&Mine(n)), "error inside, by reference");
    ck!(e.downcast_ref::<std::io::Error>().is_none() && e.downcast_ref::<String>().is_none(), "an error of another type inside");
    eqv!(e.downcast_mut::<Mine>().map(|m| { m.0 ^= 1; m.0 }), Some(n ^ 1), "error inside, mutably");
    eqv!(e.downcast_mut::<Mine>().map(|m| { m.0 ^= 1; m.0 }), Some(n), "error inside, mutably");
    ck!(e.downcast_mut::<std::io::Error>().is_none(), "an error of another type inside");
    eqv!(e.type_name().map(|t| t.contains("Mine")), if named { Some(true) } else { None }, "type name");
    let e = match e.downcast::<std::io::Error>() {
        Err(e) => e,
        Ok(_) => return Err("an error of another type came out".into()),
    };
    eqv!(e.status(), status, "status after a failed downcast");
    match e.downcast::<Mine>() {
        Ok(m) => eqv!(m, Mine(n), "error taken out"),
        Err(e) => return Err(format!("{:?} kept its error", e)),
    }
    Ok(())
}
fn built(s: &mut Src) -> R {
    let c = code(s);
    let d = code(s);
    let n = s.u64e();
    s.dbg("codes, payload", (c, d, n));
    let num = u16::from(c);
    carries(Error::new(c, Mine(n)), c, n, true)?;
    carries(Error::new(num, Mine(n)), c, n, true)?;
    carries(Error::from_str(c, Mine(n)), c, n, false)?;
    carries(Error::from_str(num, Mine(n)), c, n, false)?;
    carries(Error::from(Mine(n)), StatusCode::InternalServerError, n, true)?;
    let mut e = Error::new(c, Mine(n));
    e.set_status(d);
    carries(e, d, n, true)?;
    let mut e = Error::from_str(c, Mine(n));
    e.set_status(u16::from(d));
    carries(e, d, n, false)?;
    let mut e = Error::from(Mine(n));
    *AsMut::<StatusCode>::as_mut(&mut e) = d;
    carries(e, d, n, true)?;
    eqv!(Error::new(c, Mine(n)).into_inner().downcast_ref::<Mine>(), Some(&Mine(n)), "inner error");
    let b: Box<dyn std::error::Error + Send + Sync> = Error::new(c, Mine(n)).into();
    eqv!(b.to_string(), format!("mine {}", n), "boxed error");
    let b: Box<dyn std::error::Error> = Error::new(c, Mine(n)).into();
    eqv!(b.to_string(), format!("mine {}", n), "boxed error");
    let e = Error::from_display(Mine(n));
    eqv!((e.status(), e.to_string()), (StatusCode::InternalServerError, format!("mine {}", n)), "from_display");
    let e = Error::from_debug(Mine(n));
    eqv!((e.status(), e.to_string()), (StatusCode::InternalServerError, format!("Mine({})", n)), "from_debug");
    Ok(())
}
fn adapted(s: &mut Src) -> R {
    let c = code(s);
    let d = code(s);
    let n = s.u64e();
    s.dbg("codes, payload", (c, d, n));
    let num = u16::from(c);
    let ok: Result<u64, Mine> = Ok(n);
    let no: Result<u64, Mine> = Err(Mine(n));
    eqv!(ok.clone().status(c).map_err(|e| e.to_string()), Ok(n), "Ok stays Ok");
    eqv!(ok.clone().status(9999u16).map_err(|e| e.to_string()), Ok(n), "Ok stays Ok and its status is not looked at");
    eqv!(ok.clone().with_status(|| -> StatusCode { panic!("status of a success asked for") }).map_err(|e| e.to_string()), Ok(n), "Ok stays Ok");
    carries(no.clone().status(c).unwrap_err(), c, n, true)?;
    carries(no.clone().status(num).unwrap_err(), c, n, true)?;
    carries(no.clone().with_status(|| c).unwrap_err(), c, n, true)?;
    carries(no.clone().with_status(|| num).unwrap_err(), c, n, true)?;
    let again = |e: Error| -> Result<u64, Error> { Err(e) };
    carries(again(Error::new(d, Mine(n))).status(c).unwrap_err(), c, n, true)?;
    carries(again(Error::from_str(d, Mine(n))).status(num).unwrap_err(), c, n, false)?;
    carries(again(Error::new(d, Mine(n))).with_status(|| c).unwrap_err(), c, n, true)?;
    let fine: Result<u64, Error> = Ok(n);
    eqv!(fine.status(c).map_err(|e| e.to_string()), Ok(n), "Ok stays Ok");
    let fine: Result<u64, Error> = Ok(n);
    eqv!(fine.with_status(|| -> StatusCode { panic!("status of a success asked for") }).map_err(|e| e.to_string()), Ok(n), "Ok stays Ok");
    eqv!(Some(n).status(c).map_err(|e| e.to_string()), Ok(n), "Some becomes Ok");
    eqv!(Some(n).status(9999u16).map_err(|e| e.to_string()), Ok(n), "Some becomes Ok and its status is not looked at");
    let fine: Result<u64, Error> = Ok(n);
    eqv!(fine.status(9999u16).map_err(|e| e.to_string()), Ok(n), "Ok stays Ok and its status is not looked at");
    eqv!(Some(n).with_status(|| -> StatusCode { panic!("status of a success asked for") }).map_err(|e| e.to_string()), Ok(n), "Some becomes Ok");
    let none: Option<u64> = None;
    eqv!(none.status(c).map_err(|e| e.status()), Err(c), "None becomes an error");
    eqv!(none.status(num).map_err(|e| e.status()), Err(c), "None becomes an error");
    eqv!(none.with_status(|| c).map_err(|e| e.status()), Err(c), "None becomes an error");
    Ok(())
}
fn early(s: &mut Src) -> R {
    let n = s.u64e();
    let hold = s.bool();
    s.dbg("payload, condition", (n, hold));
    let a = |h: bool| -> http_types::Result<u64> { ensure!(h, "plain"); Ok(n) };
    let b = |h: bool| -> http_types::Result<u64> { ensure!(h, "number {}", n); Ok(n) };
    let c = |h: bool| -> http_types::Result<u64> { ensure_eq!(h, true, "number {}", n); Ok(n) };
    let d = |h: bool| -> http_types::Result<u64> { ensure_eq!(h, true, "plain"); Ok(n) };
    let e = |h: bool| -> http_types::Result<u64> { if !h { bail!("plain") } Ok(n) };
    let f = |h: bool| -> http_types::Result<u64> { if !h { bail!("number {}", n) } Ok(n) };
    let g = |h: bool| -> http_types::Result<u64> { if !h { return Err(format_err!("number {}", n)); } Ok(n) };
    let m = format!("number {}", n);
    // the expression forms: an error type made in place, and a message computed at run time
    let i = |h: bool| -> http_types::Result<u64> { if !h { bail!(m.clone()) } Ok(n) };
    let j = |h: bool| -> http_types::Result<u64> { if !h { return Err(format_err!(m.clone())); } Ok(n) };
    let k = |h: bool| -> http_types::Result<u64> { ensure!(h, m.clone()); Ok(n) };
    let l = |h: bool| -> http_types::Result<u64> { ensure_eq!(h, true, m.clone()); Ok(n) };
    for (r, t) in [(l(hold), m.as_str()), (i(hold), m.as_str()), (j(hold), &m), (k(hold), &m), (a(hold), "plain"), (b(hold), &m), (c(hold), &m), (d(hold), "plain"), (e(hold), "plain"), (f(hold), &m), (g(hold), &m)] {
        match r {
            Ok(x) => ck!(hold && x == n, "condition {} went on with {}", hold, x),
            Err(e) => eqv!((hold, e.status(), e.to_string()), (false, StatusCode::InternalServerError, t.to_string()), "early return"),
        }
    }
    Ok(())
}
/// The forms with a status of their own.
fn early_status(s: &mut Src) -> R {
    let n = s.u64e();
    let hold = s.bool();
    s.dbg("payload, condition", (n, hold));
    let m = format!("number {}", n);
    type Out = http_types::Result<u64>;
    let a = |h: bool| -> Out { ensure_status!(h, 404, "plain"); Ok(n) };
    let b = |h: bool| -> Out { ensure_status!(h, 404, m.clone()); Ok(n) };
    let c = |h: bool| -> Out { ensure_status!(h, 404, "number {}", n); Ok(n) };
    let d = |h: bool| -> Out { ensure_eq_status!(h, true, 404, "plain"); Ok(n) };
    let e = |h: bool| -> Out { ensure_eq_status!(h, true, 404, m.clone()); Ok(n) };
    let f = |h: bool| -> Out { ensure_eq_status!(h, true, 404, "number {}", n); Ok(n) };
    let g = |h: bool| -> Out { if !h { bail_status!(404, "plain") } Ok(n) };
    let i = |h: bool| -> Out { if !h { bail_status!(404, m.clone()) } Ok(n) };
    let j = |h: bool| -> Out { if !h { bail_status!(404, "number {}", n) } Ok(n) };
    let k = |h: bool| -> Out { if !h { return Err(format_err_status!(404, m.clone())); } Ok(n) };
    for (r, t) in [(a(hold), "plain"), (b(hold), m.as_str()), (c(hold), &m), (d(hold), "plain"), (e(hold), &m), (f(hold), &m), (g(hold), "plain"), (i(hold), &m), (j(hold), &m), (k(hold), &m)] {
        match r {
            Ok(x) => ck!(hold && x == n, "condition {} went on with {}", hold, x),
            Err(e) => eqv!((hold, e.status(), e.to_string()), (false, StatusCode::NotFound, t.to_string()), "early return with a status"),
        }
    }
    Ok(())
}
pub fn contracts() -> Vec<C> {
    vec![
        C { id: "error.built", clause: "an error keeps the status and the error it was given", how: How::Rand(3000), f: built },
        C { id: "error.adapted", clause: "status and with_status keep values, and put the status on failures", how: How::Rand(3000), f: adapted },
        C { id: "error.early", clause: "ensure, ensure_eq, bail and format_err fail exactly when they should, with 500", how: How::Rand(500), f: early },
        C { id: "error.early_status", clause: "the _status forms fail exactly when they should, with the status given", how: How::Rand(500), f: early_status },
    ]
}
