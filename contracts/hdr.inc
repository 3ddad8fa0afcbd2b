use std::borrow::Cow;
use std::collections::{hash_map, HashMap};
//@ include head.inc
//@ include header_types.inc
//@ item src/headers/header_name.rs struct HeaderName #[derive(PartialEq, Eq, Hash, Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ item src/headers/header_value.rs struct HeaderValue
//@ item src/headers/header_values.rs struct HeaderValues
//@ item src/headers/headers.rs struct Headers
//@ include str_shims.inc
//@ include status_trait.inc
//@ include lists.inc
//@ include parts.inc
//@ include join.inc
//@ include fmt.inc
//@ fn src/headers/header_value.rs HeaderValue::as_str
//@ ret r
ensures r@ == self.inner@,
//@ end
//@ fn src/headers/header_value.rs HeaderValue::from_bytes_unchecked
//@ ret r
requires ascii_bytes(bytes@),
ensures r.inner@ == chars_of(bytes@),
//@ end
impl Show for HeaderValue { open spec fn shown(&self) -> Seq<char> { self.inner@ } }
impl HeaderValue {
//@ fn src/headers/header_value.rs <HeaderValue as Display>::fmt
//@ bare
//@ ret r
ensures r is Ok, final(f).text() == old(f).text() + self.shown(),
//@ fmt
//@ end
}
#[verifier::external_body]
pub fn vec_last<'a, T>(v: &'a Vec<T>) -> (r: Option<&'a T>)
    ensures match r { Some(x) => v@.len() > 0 && *x == v@.last(), None => v@.len() == 0 },
{ v.iter().last() }
