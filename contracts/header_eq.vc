//@ # P03: comparing names, values and lists of values with text; turning them into one another.
use std::borrow::Cow;
//@ include head.inc
//@ include header_types.inc
//@ include fmt.inc
//@ item src/headers/header_name.rs struct HeaderName
//@ item src/headers/header_value.rs struct HeaderValue
//@ item src/headers/header_values.rs struct HeaderValues

pub open spec fn name_text(n: HeaderName) -> Seq<char> { cowv(n.0) }
pub open spec fn name_ok(n: HeaderName) -> bool { ascii_chars(name_text(n)) && lower(name_text(n)) == name_text(n) }
pub open spec fn texts(v: HeaderValues) -> Seq<Seq<char>> { v.inner@.map_values(|x: HeaderValue| x.inner@) }
// a name equals a text when the text is ASCII and is the name up to ASCII case
pub open spec fn names(n: HeaderName, s: Seq<char>) -> bool { ascii_chars(s) && name_text(n) == lower(s) }
impl PartialEq for HeaderName {
    #[verifier::external_body]
    fn eq(&self, o: &HeaderName) -> (r: bool) { self.0 == o.0 }
}
impl PartialEqSpecImpl for HeaderName {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &HeaderName) -> bool { name_text(*self) == name_text(*o) }
}
impl Clone for HeaderName {
    #[verifier::external_body]
    fn clone(&self) -> (r: HeaderName) ensures r == *self { HeaderName(self.0.clone()) }
}
// TRUSTED: std's comparisons of String and str, of sequences, and Vec::reverse and contains.
#[verifier::external_body]
pub fn string_is(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn vec_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
#[verifier::external_body]
pub fn vec_contains(v: &Vec<HeaderValue>, x: &HeaderValue) -> (r: bool)
    ensures r == exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).inner@ == x.inner@
{ unimplemented!() }
#[verifier::external_body]
pub fn seq_eq<'a>(a: &Vec<HeaderValue>, b: &[&'a str]) -> (r: bool)
    ensures r == (a@.map_values(|x: HeaderValue| x.inner@) == b@.map_values(|x: &'a str| x@))
{ unimplemented!() }

//@ impl src/headers/header_name.rs <HeaderName as FromStr>
//@ fn src/headers/header_name.rs from_str
//@ ret r
ensures
    r is Ok <==> ascii_chars(s@),
    r matches Ok(n) ==> name_ok(n) && name_text(n) == lower(s@),
//@ at start
proof { if ascii_chars(s@) {
    assert(lower(lower(s@)) =~= lower(s@));
    assert forall|i: int| 0 <= i < s@.len() implies (#[trigger] lower(s@)[i] as u32) < 0x80 by {}
} }
//@ end
//@ endimpl
impl HeaderName {
//@ fn src/headers/header_name.rs <HeaderName as PartialEq<str>>::eq
//@ bare
//@ rename eq_str
//@ ret r
ensures r == names(*self, other@),
//@ end
//@ fn src/headers/header_name.rs <HeaderName as PartialEq<&'a str>>::eq
//@ bare
//@ rename eq_ref_str
//@ ret r
ensures r == names(*self, other@),
//@ rewrite "&&'a str" => "&&str"
//@ end
//@ fn src/headers/header_name.rs <HeaderName as PartialEq<String>>::eq
//@ bare
//@ rename eq_string
//@ ret r
ensures r == names(*self, other@),
//@ end
//@ fn src/headers/header_name.rs <HeaderName as PartialEq<&String>>::eq
//@ bare
//@ rename eq_ref_string
//@ ret r
ensures r == names(*self, other@),
//@ end
//@ fn src/headers/header_name.rs <HeaderName as From<&HeaderName>>::from
//@ bare
//@ rename from_ref
//@ ret r
ensures r == *value,
//@ end
//@ fn src/headers/header_name.rs <HeaderName as From<&'a str>>::from
//@ bare
//@ rename from_text
//@ ret r
requires ascii_chars(value@),
ensures name_ok(r), name_text(r) == lower(value@),
//@ rewrite "&'a str" => "&str"
//@ rewrite "Self::from_str(value)" => "<HeaderName as FromStr>::from_str(value).ok()"
//@ end
//@ fn src/headers/header_name.rs <HeaderName as Display>::fmt
//@ bare
//@ fmt
//@ ret r
ensures r is Ok, final(f).text() == old(f).text() + name_text(*self),
//@ rewrite "fmt::Formatter<'_>" => "Formatter<'_>"
//@ end
}
impl Show for Cow<'static, str> { open spec fn shown(&self) -> Seq<char> { cowv(*self) } }
impl HeaderValue {
//@ fn src/headers/header_value.rs <HeaderValue as PartialEq<str>>::eq
//@ bare
//@ rename eq_str
//@ ret r
ensures r == (self.inner@ == other@),
//@ rewrite "self.inner == other" => "string_is(&self.inner, other)"
//@ end
//@ fn src/headers/header_value.rs <HeaderValue as PartialEq<&'a str>>::eq
//@ bare
//@ rename eq_ref_str
//@ ret r
ensures r == (self.inner@ == other@),
//@ rewrite "&&'a str" => "&&str"
//@ rewrite "&self.inner == other" => "string_is(&self.inner, *other)"
//@ end
//@ fn src/headers/header_value.rs <HeaderValue as PartialEq<String>>::eq
//@ bare
//@ rename eq_string
//@ ret r
ensures r == (self.inner@ == other@),
//@ rewrite "&self.inner == other" => "string_is(&self.inner, other)"
//@ end
//@ fn src/headers/header_value.rs <HeaderValue as PartialEq<&String>>::eq
//@ bare
//@ rename eq_ref_string
//@ ret r
ensures r == (self.inner@ == other@),
//@ rewrite "&&self.inner == other" => "string_is(&self.inner, *other)"
//@ end
//@ fn src/headers/header_value.rs <HeaderValue as Display>::fmt
//@ bare
//@ fmt
//@ ret r
ensures r is Ok, final(f).text() == old(f).text() + self.inner@,
//@ rewrite "fmt::Formatter<'_>" => "Formatter<'_>"
//@ end
// one value taken from a list is the first
//@ fn src/headers/header_value.rs <HeaderValue as From<HeaderValues>>::from
//@ bare
//@ rename from_list
//@ ret r
requires other.inner@.len() > 0,
ensures r == other.inner@[0],
//@ rewrite "other.inner.reverse()" => "vec_reverse(&mut other.inner)"
//@ end
}
impl HeaderValues {
//@ fn src/headers/header_values.rs <HeaderValues as PartialEq<str>>::eq
//@ bare
//@ rename eq_str
//@ ret r
ensures r == (texts(*self) =~= seq![other@]),
//@ rewrite "self.inner[0] == other" => "self.inner[0].eq_str(other)"
//@ at start
proof { let t = texts(*self); assert(t.len() == self.inner@.len()); if t.len() == 1 { assert(t[0] == self.inner@[0].inner@); if t =~= seq![other@] { assert(t[0] == other@); } } }
//@ end
//@ fn src/headers/header_values.rs <HeaderValues as PartialEq<&'a str>>::eq
//@ bare
//@ rename eq_ref_str
//@ ret r
ensures r == (texts(*self) =~= seq![other@]),
//@ rewrite "&&'a str" => "&&str"
//@ rewrite "&self.inner[0] == other" => "self.inner[0].eq_str(*other)"
//@ at start
proof { let t = texts(*self); assert(t.len() == self.inner@.len()); if t.len() == 1 { assert(t[0] == self.inner@[0].inner@); if t =~= seq![other@] { assert(t[0] == other@); } } }
//@ end
//@ fn src/headers/header_values.rs <HeaderValues as PartialEq<String>>::eq
//@ bare
//@ rename eq_string
//@ ret r
ensures r == (texts(*self) =~= seq![other@]),
//@ rewrite "self.inner[0] == *other" => "self.inner[0].eq_string(other)"
//@ at start
proof { let t = texts(*self); assert(t.len() == self.inner@.len()); if t.len() == 1 { assert(t[0] == self.inner@[0].inner@); if t =~= seq![other@] { assert(t[0] == other@); } } }
//@ end
//@ fn src/headers/header_values.rs <HeaderValues as PartialEq<&String>>::eq
//@ bare
//@ rename eq_ref_string
//@ ret r
ensures r == (texts(*self) =~= seq![other@]),
//@ rewrite "self.inner[0] == **other" => "self.inner[0].eq_string(*other)"
//@ at start
proof { let t = texts(*self); assert(t.len() == self.inner@.len()); if t.len() == 1 { assert(t[0] == self.inner@[0].inner@); if t =~= seq![other@] { assert(t[0] == other@); } } }
//@ end
//@ fn src/headers/header_values.rs <HeaderValues as PartialEq<[&'a str]>>::eq
//@ bare
//@ rename eq_slice
//@ ret r
ensures r == (texts(*self) == other@.map_values(|x: &str| x@)),
//@ rewrite "&[&'a str]" => "&[&str]"
//@ rewrite "self.inner.iter().eq(other.iter())" => "seq_eq(&self.inner, other)"
//@ end
//@ fn src/headers/header_values.rs <HeaderValues as From<HeaderValue>>::from
//@ bare
//@ rename from_one
//@ ret r
ensures r.inner@ == seq![other],
//@ end
//@ fn src/headers/header_values.rs <HeaderValues as From<Vec<HeaderValue>>>::from
//@ bare
//@ rename from_vec
//@ ret r
ensures r.inner@ == headers@,
//@ end
//@ fn src/headers/header_values.rs <HeaderValues as FromIterator<HeaderValue>>::from_iter
//@ bare
//@ ret r
ensures r.inner@ == iter@,
//@ rewrite "from_iter<I>(iter: I)" => "from_iter(iter: Vec<HeaderValue>)"
//@ rewrite "where\n        I: IntoIterator<Item = HeaderValue>,\n    " => ""
//@ rewrite "iter.into_iter()" => "iter"
//@ rewrite "iter.size_hint().0" => "iter.len()"
//@ loop 0 it=it
invariant output@ == it.seq().take(it.index@), it.seq() == iter@,
//@ end
// the first value stands for the list
//@ fn src/headers/header_values.rs <HeaderValues as AsRef<HeaderValue>>::as_ref
//@ bare
//@ ret r
requires self.inner@.len() > 0,
ensures *r == self.inner@[0],
//@ end
//@ fn src/headers/header_values.rs <HeaderValues as Deref>::deref
//@ bare
//@ ret r
requires self.inner@.len() > 0,
ensures *r == self.inner@[0],
//@ end
//@ fn src/headers/header_values.rs <HeaderValues as AsMut<HeaderValue>>::as_mut
//@ bare
//@ ret r
requires old(self).inner@.len() > 0,
ensures *r == old(self).inner@[0], final(self).inner@ == old(self).inner@.update(0, *final(r)),
//@ end
//@ fn src/headers/header_values.rs <HeaderValues as DerefMut>::deref_mut
//@ bare
//@ ret r
requires old(self).inner@.len() > 0,
ensures *r == old(self).inner@[0], final(self).inner@ == old(self).inner@.update(0, *final(r)),
//@ end
}
//@ fn src/headers/header_values.rs HeaderValues::contains
//@ ret r
ensures r == texts(*self).contains(value.inner@),
//@ rewrite "self.inner.contains(value)" => "vec_contains(&self.inner, value)"
//@ at start
proof {
    let t = texts(*self);
    if t.contains(value.inner@) { let i = choose|i: int| 0 <= i < t.len() && t[i] == value.inner@; assert(self.inner@[i].inner@ == value.inner@); }
    if exists|i: int| 0 <= i < self.inner@.len() && (#[trigger] self.inner@[i]).inner@ == value.inner@ {
        let i = choose|i: int| 0 <= i < self.inner@.len() && (#[trigger] self.inner@[i]).inner@ == value.inner@;
        assert(t[i] == value.inner@);
    }
}
//@ end
}
fn main() {}
