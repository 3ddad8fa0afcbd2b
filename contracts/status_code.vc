//@ # P01: numeric status codes, classes and comparisons.
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;
use std::convert::TryInto;
use std::fmt::{Debug, Display};
//@ include error_model.inc
//@ macros src/macros.rs bail format_err
pub mod private {
    pub use super::new_adhoc;
    pub use core::result::Result::Err;
}
verus! {
pub assume_specification<T> [<T as From<T>>::from] (t: T) -> (r: T) ensures r == t;
//@ item src/status_code.rs enum StatusCode #[repr(u16)] #[derive(Clone, Copy, PartialEq, Eq)]
//@ item src/error.rs struct Error
//@ include status_spec.inc
//@ include status_reason.inc

//@ fn src/lib.rs new_adhoc
//@ ret r
ensures r.status == StatusCode::InternalServerError,
//@ end

//@ fn src/error.rs Error::new_adhoc
//@ ret r
ensures r.status == StatusCode::InternalServerError,
//@ end

//@ fn src/error.rs Error::from_str
//@ ret r
requires
    call_requires(S::try_into, (status,)),
    forall|o: std::result::Result<StatusCode, S::Error>| call_ensures(S::try_into, (status,), o) ==> o is Ok,
ensures
    call_ensures(S::try_into, (status,), Ok(r.status)),
//@ end

impl FromSpecImpl<StatusCode> for u16 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: StatusCode) -> u16 { code_num(v) }
}
//@ impl src/status_code.rs <u16 as From<StatusCode>>
//@ fn src/status_code.rs from
//@ ret r
ensures r == code_num(code),
//@ end
//@ endimpl

impl TryFromSpecImpl<u16> for StatusCode {
    open spec fn obeys_try_from_spec() -> bool { false }
    uninterp spec fn try_from_spec(v: u16) -> Result<Self, Error>;
}
//@ impl src/status_code.rs <StatusCode as std::convert::TryFrom<u16>>
//@ fn src/status_code.rs try_from
//@ ret r
ensures
    r is Ok <==> registered(num),
    r matches Ok(s) ==> code_num(s) == num,
//@ end
//@ endimpl

//@ fn src/status_code.rs StatusCode::is_informational
//@ ret r
ensures r == (100 <= code_num(*self) < 200),
//@ end
//@ fn src/status_code.rs StatusCode::is_success
//@ ret r
ensures r == (200 <= code_num(*self) < 300),
//@ end
//@ fn src/status_code.rs StatusCode::is_redirection
//@ ret r
ensures r == (300 <= code_num(*self) < 400),
//@ end
//@ fn src/status_code.rs StatusCode::is_client_error
//@ ret r
ensures r == (400 <= code_num(*self) < 500),
//@ end
//@ fn src/status_code.rs StatusCode::is_server_error
//@ ret r
ensures r == (500 <= code_num(*self) < 600),
//@ end
//@ fn src/status_code.rs StatusCode::canonical_reason
//@ ret r
ensures r@ == code_reason(*self),
//@ end
// --- comparison with numbers
impl PartialEqSpecImpl<StatusCode> for u16 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &StatusCode) -> bool { *self == code_num(*other) }
}
//@ impl src/status_code.rs <u16 as PartialEq<StatusCode>>
//@ fn src/status_code.rs eq
//@ end
//@ endimpl
impl PartialEqSpecImpl<u16> for StatusCode {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &u16) -> bool { code_num(*self) == *other }
}
//@ impl src/status_code.rs <StatusCode as PartialEq<u16>>
//@ fn src/status_code.rs eq
//@ end
//@ endimpl
// --- text
//@ include fmt.inc
//@ include digits.inc
impl Show for u16 { open spec fn shown(&self) -> Seq<char> { dec_text(*self as int) } }
impl StatusCode {
//@ fn src/status_code.rs <StatusCode as Debug>::fmt
//@ bare
//@ rename fmt_debug
//@ ret r
ensures r is Ok, final(f).text() =~= old(f).text() + dec_text(code_num(*self) as int) + ": "@ + code_reason(*self),
//@ fmt
//@ end
//@ fn src/status_code.rs <StatusCode as Display>::fmt
//@ bare
//@ rename fmt_display
//@ ret r
ensures r is Ok, final(f).text() =~= old(f).text() + dec_text(code_num(*self) as int) + ": "@ + code_reason(*self),
//@ fmt
//@ end
}
// --- serialised form
//@ include serde_model.inc
pub open spec fn code_of(n: int, r: Option<StatusCode>) -> bool {
    match r { Some(s) => code_num(s) == n, None => !(0 <= n <= 65535 && registered(n as u16)) }
}
pub struct StatusCodeU16Visitor;
impl VisitorValue for StatusCodeU16Visitor {
    type Value = StatusCode;
    open spec fn reads(h: Held, r: Option<StatusCode>) -> bool { match h { Held::Int(n) => code_of(n, r), _ => r is None } }
}
impl StatusCodeU16Visitor {
//@ include status_visit.inc F=visit_i16
//@ include status_visit.inc F=visit_i32
//@ include status_visit.inc F=visit_i64
//@ include status_visit.inc F=visit_u16
//@ include status_visit.inc F=visit_u32
//@ include status_visit.inc F=visit_u64
}
impl StatusCode {
//@ fn src/status_code.rs <StatusCode as Serialize>::serialize
//@ bare
//@ ret r
ensures serializer.wrote(Held::Int(code_num(*self) as int), r),
//@ end
//@ fn src/status_code.rs <StatusCode as Deserialize<'de>>::deserialize
//@ bare
//@ ret r
ensures match deserializer.held() { Held::Int(n) => code_of(n, okv(r)), _ => r is Err },
//@ rewrite "fn deserialize<D>" => "fn deserialize<'de, D>"
//@ end
}

}
fn main() {}
