//@ # P02: request methods and protocol versions.
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use std::str::FromStr;
use std::convert::{AsRef, TryInto};
use std::fmt::{Debug, Display};
//@ include error_model.inc
//@ macros src/macros.rs bail format_err
pub mod private {
    pub use super::new_adhoc;
    pub use core::result::Result::Err;
}
verus! {
//@ include std_axioms.inc
//@ item src/status_code.rs enum StatusCode #[repr(u16)] #[derive(Clone, Copy, PartialEq, Eq)]
//@ item src/error.rs struct Error
//@ include error_fns.inc
//@ item src/method.rs enum Method #[derive(Clone, Copy)]
//@ item src/version.rs enum Version #[derive(Clone, Copy)]

//@ include method_names.inc
pub open spec fn version_name(v: Version) -> Seq<char> {
    match v {
        Version::Http0_9 => "HTTP/0.9"@,
        Version::Http1_0 => "HTTP/1.0"@,
        Version::Http1_1 => "HTTP/1.1"@,
        Version::Http2_0 => "HTTP/2"@,
        Version::Http3_0 => "HTTP/3"@,
    }
}

// Versions are ordered by age. TRUSTED: derive(PartialOrd, Ord) on a fieldless enum compares discriminants.
pub open spec fn year(v: Version) -> int {
    match v { Version::Http0_9 => 1991, Version::Http1_0 => 1996, Version::Http1_1 => 1997, Version::Http2_0 => 2015, Version::Http3_0 => 2022 }
}
pub proof fn lemma_version_order(a: Version, b: Version)
    ensures (a as int) < (b as int) <==> year(a) < year(b), (a as int) == (b as int) <==> a == b,
{ }
//@ fn src/method.rs Method::is_safe
//@ ret r
// RFC 9110 and the IANA method registry: the methods registered as safe
ensures r == (*self is Get || *self is Head || *self is Options || *self is Pri || *self is PropFind
    || *self is Report || *self is Search || *self is Trace),
//@ end

//@ impl src/method.rs <Method as FromStr>
//@ fn src/method.rs from_str
//@ ret r
ensures
    r matches Ok(m) ==> method_name(m) == upper(s@),
    (exists|m: Method| method_name(m) == upper(s@)) ==> r is Ok,
//@ rewrite "&*s.to_ascii_uppercase()" => "s.to_ascii_uppercase().as_str()"
//@ at start
proof { broadcast use axiom_str_ext; 
    reveal_strlit("ACL");
    reveal_strlit("BASELINE-CONTROL");
    reveal_strlit("BIND");
    reveal_strlit("CHECKIN");
    reveal_strlit("CHECKOUT");
    reveal_strlit("CONNECT");
    reveal_strlit("COPY");
    reveal_strlit("DELETE");
    reveal_strlit("GET");
    reveal_strlit("HEAD");
    reveal_strlit("LABEL");
    reveal_strlit("LINK");
    reveal_strlit("LOCK");
    reveal_strlit("MERGE");
    reveal_strlit("MKACTIVITY");
    reveal_strlit("MKCALENDAR");
    reveal_strlit("MKCOL");
    reveal_strlit("MKREDIRECTREF");
    reveal_strlit("MKWORKSPACE");
    reveal_strlit("MOVE");
    reveal_strlit("OPTIONS");
    reveal_strlit("ORDERPATCH");
    reveal_strlit("PATCH");
    reveal_strlit("POST");
    reveal_strlit("PRI");
    reveal_strlit("PROPFIND");
    reveal_strlit("PROPPATCH");
    reveal_strlit("PUT");
    reveal_strlit("REBIND");
    reveal_strlit("REPORT");
    reveal_strlit("SEARCH");
    reveal_strlit("TRACE");
    reveal_strlit("UNBIND");
    reveal_strlit("UNCHECKOUT");
    reveal_strlit("UNLINK");
    reveal_strlit("UNLOCK");
    reveal_strlit("UPDATE");
    reveal_strlit("UPDATEREDIRECTREF");
    reveal_strlit("VERSION-CONTROL");
}
//@ end
//@ endimpl

impl TryFromSpecImpl<&str> for Method {
    open spec fn obeys_try_from_spec() -> bool { false }
    uninterp spec fn try_from_spec(v: &str) -> Result<Self, Error>;
}
//@ impl src/method.rs <Method as std::convert::TryFrom<&'a str>>
//@ fn src/method.rs try_from
//@ ret r
ensures
    r matches Ok(m) ==> method_name(m) == upper(value@),
    (exists|m: Method| method_name(m) == upper(value@)) ==> r is Ok,
//@ end
//@ endimpl

//@ impl src/method.rs <Method as AsRef<str>>
//@ fn src/method.rs as_ref
//@ ret r
ensures r@ == method_name(*self),
//@ end
//@ endimpl

//@ impl src/version.rs <Version as AsRef<str>>
//@ fn src/version.rs as_ref
//@ ret r
ensures r@ == version_name(*self),
//@ end
//@ endimpl

// --- text
//@ include fmt.inc
impl<'a> Formatter<'a> {
    // TRUSTED, as for Sink
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), std::fmt::Error>) ensures r is Ok, final(self).text() == old(self).text() + s@ { unimplemented!() }
}
impl Method {
//@ fn src/method.rs <Method as Display>::fmt
//@ bare
//@ ret r
ensures r is Ok, final(f).text() == old(f).text() + method_name(*self),
//@ end
}
impl Version {
//@ fn src/version.rs <Version as std::fmt::Display>::fmt
//@ bare
//@ ret r
ensures r is Ok, final(f).text() == old(f).text() + version_name(*self),
//@ rewrite "std::fmt::" => "fmt::"
//@ end
}
// --- serialised form
//@ include serde_model.inc
pub open spec fn version_of(t: Seq<char>, r: Option<Version>) -> bool {
    match r { Some(v) => version_name(v) == t, None => forall|v: Version| version_name(v) != t }
}
pub open spec fn method_of(t: Seq<char>, r: Option<Method>) -> bool {
    match r { Some(m) => method_name(m) == upper(t), None => forall|m: Method| method_name(m) != upper(t) }
}
pub struct VersionVisitor;
pub struct MethodVisitor;
impl VisitorValue for VersionVisitor {
    type Value = Version;
    open spec fn reads(h: Held, r: Option<Version>) -> bool { match h { Held::Text(t) => version_of(t, r), _ => r is None } }
}
impl VisitorValue for MethodVisitor {
    type Value = Method;
    open spec fn reads(h: Held, r: Option<Method>) -> bool { match h { Held::Text(t) => method_of(t, r), _ => r is None } }
}
impl VersionVisitor {
//@ fn src/version.rs <VersionVisitor as Visitor<'de>>::visit_str
//@ bare
//@ ret r
ensures version_of(v@, okv(r)),
//@ rewrite "Self::Value" => "Version"
//@ rewrite "E: Error," => "E: DeError,"
//@ rewrite "Error::invalid_value" => "DeError::invalid_value"
//@ at start
proof { broadcast use axiom_str_ext;
reveal_strlit("HTTP/0.9"); reveal_strlit("HTTP/1.0"); reveal_strlit("HTTP/1.1"); reveal_strlit("HTTP/2"); reveal_strlit("HTTP/3"); }
//@ end
//@ fn src/version.rs <VersionVisitor as Visitor<'de>>::visit_string
//@ bare
//@ ret r
ensures version_of(v@, okv(r)),
//@ rewrite "Self::Value" => "Version"
//@ rewrite "E: Error," => "E: DeError,"
//@ rewrite "self.visit_str(&v)" => "self.visit_str(v.as_str())"
//@ end
}
impl MethodVisitor {
//@ fn src/method.rs <MethodVisitor as Visitor<'de>>::visit_str
//@ bare
//@ ret r
ensures method_of(v@, okv(r)),
//@ rewrite "Self::Value" => "Method"
//@ end
}
impl Version {
//@ fn src/version.rs <Version as Serialize>::serialize
//@ bare
//@ ret r
ensures serializer.wrote(Held::Text(version_name(*self)), r),
//@ end
//@ fn src/version.rs <Version as Deserialize<'de>>::deserialize
//@ bare
//@ ret r
ensures match deserializer.held() { Held::Text(t) => version_of(t, okv(r)), _ => r is Err },
//@ rewrite "fn deserialize<D>" => "fn deserialize<'de, D>"
//@ end
}
impl Method {
//@ fn src/method.rs <Method as Serialize>::serialize
//@ bare
//@ ret r
ensures serializer.wrote(Held::Text(method_name(*self)), r),
//@ end
//@ fn src/method.rs <Method as Deserialize<'de>>::deserialize
//@ bare
//@ ret r
ensures match deserializer.held() { Held::Text(t) => method_of(t, okv(r)), _ => r is Err },
//@ rewrite "fn deserialize<D>" => "fn deserialize<'de, D>"
//@ end
}
}
fn main() {}
