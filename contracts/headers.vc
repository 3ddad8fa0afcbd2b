//@ # P03: what header names and values can hold.
use std::borrow::Cow;
//@ include head.inc
//@ include header_types.inc
//@ item src/headers/header_name.rs struct HeaderName
//@ item src/headers/header_value.rs struct HeaderValue

pub open spec fn name_text(n: HeaderName) -> Seq<char> { cowv(n.0) }
// The invariant every safe constructor must establish.
pub open spec fn name_ok(n: HeaderName) -> bool { ascii_chars(name_text(n)) && lower(name_text(n)) == name_text(n) }
pub open spec fn value_ok(v: HeaderValue) -> bool { ascii_chars(v.inner@) }

pub proof fn lemma_lower_bytes(b: Seq<u8>)
    requires ascii_bytes(b),
    ensures ascii_bytes(lower_bytes(b)), chars_of(lower_bytes(b)) == lower(chars_of(b)),
        lower(chars_of(lower_bytes(b))) == chars_of(lower_bytes(b)),
        ascii_chars(chars_of(lower_bytes(b))),
{
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] lower_bytes(b)[i] < 0x80 by {}
    assert(chars_of(lower_bytes(b)) =~= lower(chars_of(b)));
    assert(lower(chars_of(lower_bytes(b))) =~= chars_of(lower_bytes(b)));
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] chars_of(lower_bytes(b))[i] as u32) < 0x80 by {}
}
pub proof fn lemma_lower(s: Seq<char>)
    requires ascii_chars(s),
    ensures ascii_chars(lower(s)), lower(lower(s)) == lower(s),
{
    assert(lower(lower(s)) =~= lower(s));
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] lower(s)[i] as u32) < 0x80 by {}
}

//@ fn src/headers/header_name.rs HeaderName::from_bytes
//@ ret r
ensures
    r is Ok <==> ascii_bytes(bytes@),
    r matches Ok(n) ==> name_ok(n) && name_text(n) == lower(chars_of(bytes@)),
//@ at start
proof { if ascii_bytes(bytes@) { lemma_lower_bytes(bytes@); } }
//@ end
//@ fn src/headers/header_name.rs HeaderName::from_string
//@ ret r
ensures
    r is Ok <==> ascii_chars(s@),
    r matches Ok(n) ==> name_ok(n) && name_text(n) == lower(s@),
//@ at start
broadcast use axiom_utf8_ascii;
//@ end
//@ fn src/headers/header_name.rs HeaderName::as_str
//@ ret r
ensures r@ == name_text(*self),
//@ at start
broadcast use axiom_cow_str;
//@ end
//@ fn src/headers/header_name.rs HeaderName::from_bytes_unchecked
//@ ret r
requires ascii_bytes(bytes@),
ensures name_ok(r), name_text(r) == lower(chars_of(bytes@)),
//@ at start
proof { lemma_lower_bytes(bytes@); }
//@ end
//@ fn src/headers/header_name.rs HeaderName::from_lowercase_str
//@ ret r
ensures name_text(r) == str@,
//@ end
//@ impl src/headers/header_name.rs <HeaderName as FromStr>
//@ fn src/headers/header_name.rs from_str
//@ ret r
ensures
    r is Ok <==> ascii_chars(s@),
    r matches Ok(n) ==> name_ok(n) && name_text(n) == lower(s@),
//@ at start
proof { if ascii_chars(s@) { lemma_lower(s@); } }
//@ end
//@ endimpl

//@ fn src/headers/header_value.rs HeaderValue::from_bytes
//@ ret r
ensures
    r is Ok <==> ascii_bytes(bytes@),
    r matches Ok(v) ==> value_ok(v) && v.inner@ == chars_of(bytes@),
//@ end
//@ fn src/headers/header_value.rs HeaderValue::from_bytes_unchecked
//@ ret r
requires ascii_bytes(bytes@),
ensures value_ok(r), r.inner@ == chars_of(bytes@),
//@ end
//@ fn src/headers/header_value.rs HeaderValue::as_str
//@ ret r
ensures r@ == self.inner@,
//@ end
//@ impl src/headers/header_value.rs <HeaderValue as FromStr>
//@ fn src/headers/header_value.rs from_str
//@ ret r
ensures
    r is Ok <==> ascii_chars(s@),
    r matches Ok(v) ==> value_ok(v) && v.inner@ == s@,
//@ at start
proof { axiom_string_from(); }
//@ end
//@ endimpl
impl TryFromSpecImpl<&str> for HeaderValue {
    open spec fn obeys_try_from_spec() -> bool { false }
    uninterp spec fn try_from_spec(v: &str) -> Result<Self, Error>;
}
//@ impl src/headers/header_value.rs <HeaderValue as TryFrom<&'a str>>
//@ fn src/headers/header_value.rs try_from
//@ ret r
ensures
    r is Ok <==> ascii_chars(value@),
    r matches Ok(v) ==> value_ok(v) && v.inner@ == value@,
//@ end
//@ endimpl
}
fn main() {}
