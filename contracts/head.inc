use vstd::prelude::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;
use std::str::FromStr;
use std::convert::{AsRef, TryFrom, TryInto};
use std::fmt::{Debug, Display};
//@ include error_model.inc
//@ macros src/macros.rs bail format_err ensure bail_status ensure_status ensure_eq_status format_err_status
// ensure_status! without the arguments of the message
#[allow(unused_macros)] macro_rules! ensure_status_text { ($cond:expr, $status:literal, $($arg:tt)*) => { ensure_status!($cond, $status, "") } }
pub mod private {
    pub use super::new_adhoc;
    pub use core::result::Result::Err;
}
verus! {
//@ include std_axioms.inc
//@ item src/status_code.rs enum StatusCode #[repr(u16)] #[derive(Clone, Copy, PartialEq, Eq)]
//@ item src/error.rs struct Error
//@ include error_fns.inc
pub type CrateResult<T> = Result<T, Error>;
