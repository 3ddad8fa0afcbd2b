// Reading and writing quoted strings.
// TRUSTED here, discharged in unit forwarded: parse_quoted_string.
#[verifier::external_body]
pub fn parse_quoted_string<'a>(input: &'a str) -> (r: (Option<Cow<'a, str>>, &'a str))
    ensures match quoted(input@) { Some(x) => r.0 is Some && cowt(r.0->0) == x.0 && r.1@ == x.1, None => r.0 is None && r.1@ == input@ },
{ unimplemented!() }
#[verifier::external_body]
pub fn cow_into_owned<'a>(c: Cow<'a, str>) -> (r: String) ensures r@ == cowt(c) { c.into_owned() }
//@ fn src/parse_utils.rs quoted_string
//@ ret r
ensures r@ == seq!['"'] + esc(input@) + seq!['"'],
//@ rewrite "String::from(" => "str::to_owned("
//@ at start
proof { reveal_strlit("\""); }
//@ loop 0 it=it
invariant string@ == seq!['"'] + esc(input@.subrange(0, it.index@)),
//@ at loop 0 start
proof {
    let i = it.index@;
    assert(input@.subrange(0, i + 1) =~= input@.subrange(0, i).push(input@[i]));
    lemma_esc_push(input@.subrange(0, i), input@[i]);
    let a = esc(input@.subrange(0, i));
    assert((seq!['"'] + a).push('\\').push(input@[i]) =~= seq!['"'] + (a + seq!['\\', input@[i]]));
    assert((seq!['"'] + a).push(input@[i]) =~= seq!['"'] + (a + seq![input@[i]]));
}
//@ at loop 0 before
proof { assert(input@.subrange(0, 0) =~= seq![]); assert(esc(seq![]) =~= seq![]); assert(string@ =~= seq!['"'] + esc(input@.subrange(0, 0))); }
//@ at loop 0 after
proof { assert(input@.subrange(0, input@.len() as int) =~= input@); assert((seq!['"'] + esc(input@)).push('"') =~= seq!['"'] + esc(input@) + seq!['"']); }
//@ end
pub proof fn lemma_esc_ascii(s: Seq<char>)
    requires ascii_chars(s),
    ensures ascii_chars(esc(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < suf(s, 1).len() implies (#[trigger] suf(s, 1)[i] as u32) < 0x80 by { assert(suf(s, 1)[i] == s[i + 1]); }
        lemma_esc_ascii(suf(s, 1));
        assert((s[0] as u32) < 0x80);
    }
}
