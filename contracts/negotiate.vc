//@ # P09: content codings: parsing of Accept-Encoding and Content-Encoding, negotiation.
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::{hash_map, HashMap};
//@ include head.inc
//@ include header_types.inc
//@ item src/headers/header_name.rs struct HeaderName #[derive(PartialEq, Eq, Hash, Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ item src/headers/header_value.rs struct HeaderValue
//@ item src/headers/header_values.rs struct HeaderValues
//@ item src/headers/headers.rs struct Headers
//@ fn src/headers/header_value.rs HeaderValue::as_str
//@ ret r
ensures r@ == self.inner@,
//@ end
//@ include str_shims.inc
//@ include status_trait.inc
//@ include lists.inc
//@ include parts.inc
//@ include weights.inc
//@ include coding_content.inc
//@ include negotiate_enc.inc DIR=src/content CE=ContentEncoding CEFILE=content_encoding.rs CECONST=CONTENT_ENCODING CENAME=content-encoding AE=AcceptEncoding AEFILE=accept_encoding.rs CONST=ACCEPT_ENCODING NAME=accept-encoding
}
fn main() {}
