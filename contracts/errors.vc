//@ # P12: errors and their status codes; the `.status(n)` adaptors.
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;
use std::convert::{Infallible, TryFrom, TryInto};
use std::fmt::{Debug, Display};
//@ macros src/macros.rs bail format_err
pub mod private {
    pub use super::new_adhoc;
    pub use core::result::Result::Err;
}
verus! {
// TRUSTED: anyhow::Error carries the error it was made from and gives it back to whoever asks for its type.
pub mod anyhow {
    use vstd::prelude::*;
    use std::fmt::{Debug, Display};
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct Error(u8);
    impl Error {
        pub uninterp spec fn holds<E>(&self) -> Option<E>;
        #[verifier::external_body]
        pub fn msg<M: Display + Debug + Send + Sync + 'static>(m: M) -> (r: Error) ensures r.holds::<M>() == Some(m) { unimplemented!() }
        #[verifier::external_body]
        pub fn downcast_ref<E: Display + Debug + Send + Sync + 'static>(&self) -> (r: Option<&E>)
            ensures match r { Some(x) => self.holds::<E>() == Some(*x), None => self.holds::<E>() is None } { unimplemented!() }
        #[verifier::external_body]
        pub fn downcast_mut<E: Display + Debug + Send + Sync + 'static>(&mut self) -> (r: Option<&mut E>)
            ensures match r {
                Some(x) => old(self).holds::<E>() == Some(*x) && final(self).holds::<E>() == Some(*final(x)),
                None => old(self).holds::<E>() is None && *final(self) == *old(self) } { unimplemented!() }
        #[verifier::external_body]
        pub fn downcast<E: Display + Debug + Send + Sync + 'static>(self) -> (r: Result<E, Error>)
            ensures match self.holds::<E>() { Some(x) => r == Ok::<E, Error>(x), None => r == Err::<E, Error>(self) } { unimplemented!() }
    }
    impl<E: super::StdError + Send + Sync + 'static> From<E> for Error {
        #[verifier::external_body]
        fn from(e: E) -> (r: Error) ensures r.holds::<E>() == Some(e) { unimplemented!() }
    }
}
pub trait StdError {}
pub uninterp spec fn display_text<D>(d: &D) -> Seq<char>;
#[verifier::external_body]
pub fn to_text<D: Display>(d: &D) -> (r: String) ensures r@ == display_text(d) { d.to_string() }
pub uninterp spec fn debug_text<D>(d: &D) -> Seq<char>;
#[verifier::external_body]
pub fn debug_to_text<D: Debug>(d: &D) -> (r: String) ensures r@ == debug_text(d) { format!("{:?}", d) }

pub uninterp spec fn name_of_type<E>() -> Seq<char>;
#[verifier::external_body]
pub fn type_name<E>() -> (r: &'static str) ensures r@ == name_of_type::<E>() { std::any::type_name::<E>() }
pub assume_specification<T> [<T as From<T>>::from] (t: T) -> (r: T) ensures r == t;
//@ item src/status_code.rs enum StatusCode #[repr(u16)] #[derive(Clone, Copy, PartialEq, Eq)]
//@ item src/error.rs struct Error
//@ include status_spec.inc
//@ fn src/lib.rs new_adhoc
//@ ret r
ensures r.status == StatusCode::InternalServerError,
//@ end
// a value that can be made into a status code, and the code it is made into
pub open spec fn valid_status<S: TryInto<StatusCode>>(s: S) -> bool {
    call_requires(S::try_into, (s,)) && forall|o: Result<StatusCode, S::Error>| call_ensures(S::try_into, (s,), o) ==> o is Ok
}
pub open spec fn becomes<S: TryInto<StatusCode>>(s: S, c: StatusCode) -> bool { call_ensures(S::try_into, (s,), Ok(c)) }
//@ fn src/error.rs Error::new
//@ ret r
requires valid_status(status), call_requires(E::into, (error,)),
ensures becomes(status, r.status), call_ensures(E::into, (error,), r.error), r.type_name is Some, (r.type_name->0)@ == name_of_type::<E>(),
//@ rewrite "std::any::type_name" => "type_name"
//@ end
//@ fn src/error.rs Error::from_str
//@ ret r
requires valid_status(status),
ensures becomes(status, r.status), r.error.holds::<M>() == Some(msg), r.type_name is None,
//@ end
//@ fn src/error.rs Error::new_adhoc
//@ ret r
ensures r.status == StatusCode::InternalServerError, r.error.holds::<M>() == Some(message),
//@ end
//@ fn src/error.rs Error::status
//@ ret r
ensures r == self.status,
//@ end
//@ fn src/error.rs Error::set_status
requires valid_status(status),
ensures becomes(status, final(self).status), final(self).error == old(self).error, final(self).type_name == old(self).type_name,
//@ end
//@ fn src/error.rs Error::into_inner
//@ ret r
ensures r == self.error,
//@ end
//@ fn src/error.rs Error::type_name
//@ ret r
ensures r is Some == self.type_name is Some, r is Some ==> (r->0)@ == (self.type_name->0)@,
//@ end
//@ fn src/error.rs Error::downcast
//@ ret r
ensures match self.error.holds::<E>() { Some(x) => r == Ok::<E, Error>(x), None => r == Err::<E, Error>(self) },
//@ end
//@ fn src/error.rs Error::downcast_ref
//@ ret r
ensures match r { Some(x) => self.error.holds::<E>() == Some(*x), None => self.error.holds::<E>() is None },
//@ end
//@ fn src/error.rs Error::downcast_mut
//@ ret r
ensures
    match r {
        Some(x) => old(self).error.holds::<E>() == Some(*x) && final(self).error.holds::<E>() == Some(*final(x)),
        None => old(self).error.holds::<E>() is None && final(self).error == old(self).error,
    },
    final(self).status == old(self).status, final(self).type_name == old(self).type_name,
//@ end
//@ fn src/error.rs Error::from_display
//@ ret r
ensures r.status == StatusCode::InternalServerError, r.error.holds::<String>() is Some, (r.error.holds::<String>()->0)@ == display_text(&error),
//@ rewrite "anyhow::Error::msg(error.to_string()).into()" => "Error::from_any(anyhow::Error::msg(to_text(&error)))"
//@ end
//@ fn src/error.rs Error::from_debug
//@ ret r
ensures r.status == StatusCode::InternalServerError, r.error.holds::<String>() is Some, (r.error.holds::<String>()->0)@ == debug_text(&error),
//@ rewrite "anyhow::Error::msg(format!(\"{:?}\", error)).into()" => "Error::from_any(anyhow::Error::msg(debug_to_text(&error)))"
//@ end
impl Error {
//@ fn src/error.rs <Error as From<E>>::from
//@ bare
//@ rewrite "from(error: E)" => "from_any<E: Into<anyhow::Error>>(error: E)"
//@ ret r
requires call_requires(E::into, (error,)),
ensures r.status == StatusCode::InternalServerError, call_ensures(E::into, (error,), r.error), r.type_name is Some, (r.type_name->0)@ == name_of_type::<E>(),
//@ end
//@ fn src/error.rs <Error as AsRef<StatusCode>>::as_ref
//@ bare
//@ ret r
ensures *r == self.status,
//@ end
//@ fn src/error.rs <Error as AsMut<StatusCode>>::as_mut
//@ bare
//@ ret r
ensures *r == old(self).status, *final(r) == final(self).status, final(self).error == old(self).error, final(self).type_name == old(self).type_name,
//@ end
}
pub trait Status<T, E>: Sized {
    spec fn good(self) -> Option<T>;
    spec fn kept(self, e: Error) -> bool;
    spec fn ready(self) -> bool;
    fn status<S>(self, status: S) -> (r: Result<T, Error>) where S: TryInto<StatusCode>, S::Error: Debug
        requires self.good() is None ==> valid_status(status), self.ready(),
        ensures match self.good() { Some(v) => r == Ok::<T, Error>(v), None => r is Err && becomes(status, (r->Err_0).status) && self.kept(r->Err_0) };
    fn with_status<S, F>(self, f: F) -> (r: Result<T, Error>) where S: TryInto<StatusCode>, S::Error: Debug, F: FnOnce() -> S
        requires self.good() is None ==> call_requires(f, ()) && forall|s: S| #[trigger] call_ensures(f, (), s) ==> valid_status(s), self.ready(),
        ensures match self.good() { Some(v) => r == Ok::<T, Error>(v), None => r is Err && (exists|s: S| #[trigger] call_ensures(f, (), s) && becomes(s, (r->Err_0).status)) && self.kept(r->Err_0) };
}
//@ impl src/status.rs <Result<T,E> as Status<T,E>>
open spec fn good(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
open spec fn ready(self) -> bool { self is Err ==> call_requires(<E as Into<anyhow::Error>>::into, (self->Err_0,)) }
open spec fn kept(self, e: Error) -> bool { self is Err && call_ensures(<E as Into<anyhow::Error>>::into, (self->Err_0,), e.error) && e.type_name is Some && (e.type_name->0)@ == name_of_type::<E>() }
//@ fn src/status.rs status
//@ closure 0 types="E" ret="y: Error"
requires valid_status(status), call_requires(<E as Into<anyhow::Error>>::into, (error,)),
ensures becomes(status, y.status), call_ensures(<E as Into<anyhow::Error>>::into, (error,), y.error), y.type_name is Some, (y.type_name->0)@ == name_of_type::<E>(),
//@ end
//@ fn src/status.rs with_status
//@ closure 0 types="E" ret="y: Error"
requires call_requires(f, ()), forall|s: S| #[trigger] call_ensures(f, (), s) ==> valid_status(s), call_requires(<E as Into<anyhow::Error>>::into, (error,)),
ensures exists|s: S| #[trigger] call_ensures(f, (), s) && becomes(s, y.status), call_ensures(<E as Into<anyhow::Error>>::into, (error,), y.error), y.type_name is Some, (y.type_name->0)@ == name_of_type::<E>(),
//@ end
//@ endimpl
//@ impl src/status.rs <Result<T,Error> as Status<T,Error>>
open spec fn good(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
open spec fn ready(self) -> bool { true }
open spec fn kept(self, e: Error) -> bool { self is Err && e.error == (self->Err_0).error && e.type_name == (self->Err_0).type_name }
//@ fn src/status.rs status
//@ closure 0 types="Error" ret="y: Error"
requires valid_status(status),
ensures becomes(status, y.status), y.error == error.error, y.type_name == error.type_name,
//@ end
//@ fn src/status.rs with_status
//@ closure 0 types="Error" ret="y: Error"
requires call_requires(f, ()), forall|s: S| #[trigger] call_ensures(f, (), s) ==> valid_status(s),
ensures exists|s: S| #[trigger] call_ensures(f, (), s) && becomes(s, y.status), y.error == error.error, y.type_name == error.type_name,
//@ end
//@ endimpl
//@ impl src/status.rs <Option<T> as Status<T,Infallible>>
open spec fn good(self) -> Option<T> { self }
open spec fn ready(self) -> bool { true }
open spec fn kept(self, e: Error) -> bool { e.type_name is None && e.error.holds::<&'static str>() is Some }
//@ fn src/status.rs status
//@ closure 0 types="" ret="y: Error"
requires valid_status(status),
ensures becomes(status, y.status), y.type_name is None, y.error.holds::<&'static str>() is Some,
//@ end
//@ fn src/status.rs with_status
//@ closure 0 types="" ret="y: Error"
requires call_requires(f, ()), forall|s: S| #[trigger] call_ensures(f, (), s) ==> valid_status(s),
ensures exists|s: S| #[trigger] call_ensures(f, (), s) && becomes(s, y.status), y.type_name is None, y.error.holds::<&'static str>() is Some,
//@ end
//@ endimpl
impl TryFromSpecImpl<u16> for StatusCode {
    open spec fn obeys_try_from_spec() -> bool { false }
    uninterp spec fn try_from_spec(v: u16) -> Result<Self, Error>;
}
//@ impl src/status_code.rs <StatusCode as std::convert::TryFrom<u16>>
//@ fn src/status_code.rs try_from
//@ ret r
ensures
    r is Ok <==> registered(num),
    r matches Ok(s) ==> code_num(s) == num,
//@ end
//@ endimpl
// TRUSTED: std's blanket TryInto calls TryFrom.
pub axiom fn axiom_try_into(n: u16)
    ensures
        call_requires(<u16 as TryInto<StatusCode>>::try_into, (n,)),
        forall|o: Result<StatusCode, Error>| #[trigger] call_ensures(<u16 as TryInto<StatusCode>>::try_into, (n,), o) ==> call_ensures(<StatusCode as TryFrom<u16>>::try_from, (n,), o);
// a number given to `status` is the registered code of that number (what the other units assume of it)
pub proof fn lemma_numbers(n: u16)
    requires registered(n),
    ensures valid_status(n), forall|c: StatusCode| #[trigger] becomes(n, c) ==> code_num(c) == n,
{
    axiom_try_into(n);
}
}
fn main() {}
