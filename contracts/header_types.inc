// TRUSTED: std's Cow<str> and the byte-level view of ASCII text.
pub uninterp spec fn cow_deref<'a, 'b, B: ?Sized + ToOwned>(c: &'b Cow<'a, B>) -> &'b B;
pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [<Cow<'a, B> as std::ops::Deref>::deref] (c: &'b Cow<'a, B>) -> (r: &'b B)
    ensures r == cow_deref(c);
pub broadcast axiom fn axiom_cow_str(c: &Cow<'static, str>)
    ensures #![trigger cow_deref(c)] cow_deref(c)@ == cowv(*c);
pub open spec fn cowv(c: Cow<'static, str>) -> Seq<char> {
    match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ }
}
pub open spec fn ascii_bytes(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 0x80 }
pub open spec fn ascii_chars(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 }
pub open spec fn chars_of(b: Seq<u8>) -> Seq<char> { b.map_values(|x: u8| x as char) }
pub open spec fn lower_byte(x: u8) -> u8 { if 65 <= x <= 90 { (x + 32) as u8 } else { x } }
pub open spec fn lower_bytes(b: Seq<u8>) -> Seq<u8> { b.map_values(|x: u8| lower_byte(x)) }
// UTF-8 of a text; for ASCII text it is one byte per character.
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub broadcast axiom fn axiom_utf8_ascii(s: Seq<char>)
    ensures
        #![trigger utf8(s)]
        ascii_bytes(utf8(s)) <==> ascii_chars(s),
        ascii_chars(s) ==> chars_of(utf8(s)) == s;
pub assume_specification [String::into_bytes] (s: String) -> (r: Vec<u8>) ensures r@ == utf8(s@);
pub assume_specification [<[u8]>::is_ascii] (b: &[u8]) -> (r: bool) ensures r == ascii_bytes(b@);
pub assume_specification [<[u8]>::make_ascii_lowercase] (b: &mut [u8]) ensures final(b)@ == lower_bytes(old(b)@);
// The precondition is the safety obligation of the unsafe call: ASCII bytes are valid UTF-8.
pub assume_specification [String::from_utf8_unchecked] (b: Vec<u8>) -> (r: String)
    requires ascii_bytes(b@),
    ensures r@ == chars_of(b@);
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> vstd::pervasive::cloned(s@[i], r@[i]),
        (forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> s@[i] == r@[i]) ==> r@ == s@;
