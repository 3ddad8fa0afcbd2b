// TRUSTED: reflexive conversion, extensional equality of string slices, ASCII case mapping.
pub assume_specification<T> [<T as From<T>>::from] (t: T) -> (r: T) ensures r == t;
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub open spec fn upper_char(c: char) -> char {
    if 'a' <= c && c <= 'z' { ((c as u32 - 32) as u8) as char } else { c }
}
pub open spec fn lower_char(c: char) -> char {
    if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c }
}
pub open spec fn upper(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| upper_char(c)) }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower_char(c)) }
pub assume_specification [str::to_ascii_uppercase] (s: &str) -> (r: String) ensures r@ == upper(s@);
pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: String) ensures r@ == lower(s@);
pub assume_specification [str::eq_ignore_ascii_case] (a: &str, b: &str) -> (r: bool) ensures r == (lower(a@) == lower(b@));
pub axiom fn axiom_string_from()
    ensures
        <String as FromSpec<&str>>::obeys_from_spec(),
        forall|s: &str| #![trigger <String as FromSpec<&str>>::from_spec(s)] <String as FromSpec<&str>>::from_spec(s)@ == s@;
pub axiom fn axiom_string_eq()
    ensures
        <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec(),
        forall|a: String, b: &str| #![trigger <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::eq_spec(&a, &b)]
            <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@);
