// TRUSTED here, discharged in unit forwarded: parse_quoted_string.
#[verifier::external_body]
pub fn parse_quoted_string<'a>(input: &'a str) -> (r: (Option<Cow<'a, str>>, &'a str))
    ensures match quoted(input@) { Some(x) => r.0 is Some && cowt(r.0->0) == x.0 && r.1@ == x.1, None => r.0 is None && r.1@ == input@ },
{ unimplemented!() }
#[verifier::external_body]
pub fn cow_into_owned<'a>(c: Cow<'a, str>) -> (r: String) ensures r@ == cowt(c) { c.into_owned() }
// TRUSTED here, discharged in unit auth: quoted_string.
#[verifier::external_body]
pub fn quoted_string(input: &str) -> (r: String) ensures r@ == seq!['"'] + esc(input@) + seq!['"'] { unimplemented!() }
pub proof fn lemma_esc_ascii(s: Seq<char>)
    requires ascii_chars(s),
    ensures ascii_chars(esc(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < suf(s, 1).len() implies (#[trigger] suf(s, 1)[i] as u32) < 0x80 by { assert(suf(s, 1)[i] == s[i + 1]); }
        lemma_esc_ascii(suf(s, 1));
        assert((s[0] as u32) < 0x80);
    }
}
