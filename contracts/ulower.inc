// TRUSTED: str::to_lowercase, pinned down on ASCII text.
pub uninterp spec fn ulower(s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn axiom_ulower(s: Seq<char>)
    ensures ascii_chars(s) ==> #[trigger] ulower(s) == lower(s);
#[verifier::external_body]
pub fn str_to_lowercase(s: &str) -> (r: String) ensures r@ == ulower(s@) { s.to_lowercase() }
