//@ include floats.inc
//@ include weight_text.inc
//@ include coding_spec.inc DIR={{DIR}} CE={{CE}} CEFILE={{CEFILE}} AE={{AE}} AEFILE={{AEFILE}}
pub proof fn lemma_coding(e: Encoding)
    ensures coding(coding_text(e)) == Some(e), tight(coding_text(e)), ascii_chars(coding_text(e)), coding_text(e)[0] != '*',
        first(coding_text(e), is_char(',')) == coding_text(e).len(), first(coding_text(e), is_char(';')) == coding_text(e).len(),
{
    broadcast use axiom_white;
    reveal_strlit("gzip"); reveal_strlit("deflate"); reveal_strlit("br"); reveal_strlit("zstd"); reveal_strlit("identity"); reveal_strlit("chunked");
    assert("deflate"@.len() == "chunked"@.len() && "deflate"@[0] != "chunked"@[0] && "gzip"@[0] != "zstd"@[0]);
    lemma_first_is(coding_text(e), is_char(','), coding_text(e).len() as int);
    lemma_first_is(coding_text(e), is_char(';'), coding_text(e).len() as int);
}
impl Show for Encoding { open spec fn shown(&self) -> Seq<char> { coding_text(*self) } }
impl Encoding {
//@ fn {{DIR}}/encoding.rs <Encoding as Display>::fmt
//@ bare
//@ ret r
ensures r is Ok, final(f).text() == old(f).text() + self.shown(),
//@ fmt
//@ end
}
pub open spec fn entry_text(p: EncodingProposal) -> Seq<char> {
    match p.weight { None => coding_text(p.encoding), Some(w) => coding_text(p.encoding) + ";q="@ + wtext(w) }
}
pub open spec fn kept(p: EncodingProposal) -> EncodingProposal {
    EncodingProposal { encoding: p.encoding, weight: match p.weight { None => None, Some(w) => Some(rounded(w)) } }
}
pub open spec fn entry_texts(es: Seq<EncodingProposal>) -> Seq<Seq<char>> { es.map_values(|e: EncodingProposal| entry_text(e)) }
pub open spec fn all_texts(any: bool, es: Seq<EncodingProposal>) -> Seq<Seq<char>> { if any { entry_texts(es).push("*"@) } else { entry_texts(es) } }
pub open spec fn all_kept(es: Seq<EncodingProposal>) -> Seq<EncodingProposal> { es.map_values(|e: EncodingProposal| kept(e)) }
pub proof fn lemma_no_split(s: Seq<char>, c: char) requires first(s, is_char(c)) == s.len() ensures splits(s, c) == seq![s] {}
// an entry that is written is read, its weight rounded
pub proof fn lemma_entry(p: EncodingProposal)
    requires wok(p.weight),
    ensures tight(entry_text(p)), ascii_chars(entry_text(p)), entry_text(p)[0] != '*', first(entry_text(p), is_char(',')) == entry_text(p).len(), element(entry_text(p)) == Element::Entry(kept(p)), wok(kept(p).weight),
{
    let c = coding_text(p.encoding);
    lemma_coding(p.encoding);
    lemma_trim_id(c);
    match p.weight {
        None => { lemma_no_split(c, ';'); },
        Some(w) => {
            axiom_wtext(w);
            let t = wtext(w);
            let q = "q="@ + t;
            reveal_strlit(";q="); reveal_strlit("q=");
            broadcast use axiom_white;
            assert(entry_text(p) =~= c + seq![';'] + q);
            lemma_splits_append(c, q, ';');
            lemma_first_is("q="@, is_char(';'), 2);
            lemma_first_append("q="@, t, is_char(';'));
            lemma_no_split(c, ';'); lemma_no_split(q, ';');
            assert(splits(entry_text(p), ';') =~= seq![c, q]);
            lemma_trim_id(q);
            assert(q.subrange(2, q.len() as int) =~= t);
            assert(weight_of(q) == Some(rounded(w)));
            lemma_first_is(";q="@, is_char(','), 3);
            lemma_first_append(c + ";q="@, t, is_char(','));
            lemma_first_append(c, ";q="@, is_char(','));
        },
    }
}
pub proof fn lemma_entries_fold(es: Seq<EncodingProposal>, n: int)
    requires 0 <= n <= es.len(), e_ok(es),
    ensures fold(entry_texts(es), n, Some((false, seq![])), ae_step()) == Some((false, all_kept(es).subrange(0, n))),
    decreases n,
{
    let ks = all_kept(es);
    if n > 0 {
        lemma_entries_fold(es, n - 1);
        lemma_entry(es[n - 1]);
        let t = entry_texts(es)[n - 1];
        assert(t == entry_text(es[n - 1]));
        lemma_trim_id(t);
        reveal_strlit("*");
        assert(t != "*"@);
        assert(ks.subrange(0, n) =~= ks.subrange(0, n - 1).push(kept(es[n - 1])));
    } else { assert(ks.subrange(0, 0) =~= seq![]); }
}
// the list that is written is read: the entries in order, weights rounded, and the wildcard
pub proof fn lemma_written_reads(any: bool, es: Seq<EncodingProposal>)
    requires e_ok(es),
    ensures accepted(seq![joined(all_texts(any, es))]) == Some((any, all_kept(es))),
{
    let ts = all_texts(any, es);
    let f = ae_step();
    let z: Option<(bool, Seq<EncodingProposal>)> = Some((false, seq![]));
    let cs = entry_texts(es);
    broadcast use axiom_white;
    reveal_strlit("*");
    lemma_first_is("*"@, is_char(','), 1);
    assert(tight("*"@));
    assert forall|i: int| 0 <= i < ts.len() implies first(#[trigger] ts[i], is_char(',')) == ts[i].len() && tight(ts[i]) by { if i < cs.len() { assert(ts[i] == entry_text(es[i])); lemma_entry(es[i]); } }
    assert forall|i: int, a: Option<(bool, Seq<EncodingProposal>)>| 0 <= i < ts.len() implies #[trigger] f(a, " "@ + ts[i]) == f(a, ts[i]) by { lemma_trim_id(ts[i]); lemma_trim_space(ts[i]); }
    assert forall|a: Option<(bool, Seq<EncodingProposal>)>| #[trigger] f(a, seq![]) == a by { assert(trim(seq![]) =~= seq![]); }
    lemma_list_reads(ts, z, f);
    lemma_joined_tight(ts);
    lemma_entries_fold(es, es.len() as int);
    assert(all_kept(es).subrange(0, es.len() as int) =~= all_kept(es));
    lemma_fold_prefix(ts, cs, cs.len() as int, z, f);
    if any { lemma_trim_id("*"@); assert(f(Some((false, all_kept(es))), ts[cs.len() as int]) == Some((true, all_kept(es)))); }
    let t = joined(ts);
    assert(fold(seq![t], 1, z, ae_line()) == ae_line()(fold(seq![t], 0, z, ae_line()), t));
}
impl HeaderValue {
//@ fn {{DIR}}/encoding.rs <HeaderValue as From<Encoding>>::from
//@ bare
//@ rename of_encoding
//@ ret r
ensures r.inner@ == coding_text(directive),
//@ rewrite "directive.to_string()" => "vx_to_string(&directive)"
//@ at start
broadcast use axiom_utf8_ascii;
proof { lemma_coding(directive); }
//@ end
//@ fn {{DIR}}/encoding_proposal.rs <HeaderValue as From<EncodingProposal>>::from
//@ bare
//@ rename of_proposal
//@ ret r
requires wok(entry.weight),
ensures r.inner@ == entry_text(entry),
//@ fmt
//@ rewrite "entry.encoding.to_string()" => "vx_to_string(&entry.encoding)"
//@ at start
broadcast use axiom_utf8_ascii;
proof { lemma_entry(entry); reveal_strlit(";q="); }
//@ at stmt 1
proof { assert(s@ =~= entry_text(entry)); }
//@ end
}
impl FromSpecImpl<Encoding> for EncodingProposal {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Encoding) -> Self { EncodingProposal { encoding: v, weight: None } }
}
//@ impl {{DIR}}/encoding_proposal.rs <EncodingProposal as From<Encoding>>
//@ fn {{DIR}}/encoding_proposal.rs from
//@ end
//@ endimpl
impl EncodingProposal {
//@ fn {{DIR}}/encoding_proposal.rs <EncodingProposal as PartialEq<Encoding>>::eq
//@ bare
//@ rename eq_encoding
//@ ret r
ensures r == (self.encoding == *other),
//@ end
//@ fn {{DIR}}/encoding_proposal.rs <&EncodingProposal as PartialEq<Encoding>>::eq
//@ bare
//@ rename ref_eq_encoding
//@ ret r
ensures r == (self.encoding == *other),
//@ end
//@ fn {{DIR}}/encoding_proposal.rs <EncodingProposal as Deref>::deref
//@ bare
//@ rewrite "Self::Target" => "Encoding"
//@ ret r
ensures *r == self.encoding,
//@ end
//@ fn {{DIR}}/encoding_proposal.rs <EncodingProposal as DerefMut>::deref_mut
//@ bare
//@ rewrite "Self::Target" => "Encoding"
//@ ret r
ensures *r == old(self).encoding, *final(r) == final(self).encoding, final(self).weight == old(self).weight,
//@ end
}
//@ fn {{DIR}}/{{CEFILE}} {{CE}}::new
//@ ret r
ensures r.inner == encoding,
//@ end
//@ fn {{DIR}}/{{CEFILE}} {{CE}}::encoding
//@ ret r
ensures r == self.inner,
//@ end
impl {{CE}} {
//@ fn {{DIR}}/{{CEFILE}} <{{CE}} as Header>::header_value
//@ bare
//@ ret r
ensures r.inner@ == coding_text(self.inner),
//@ rewrite "self.inner.into()" => "HeaderValue::of_encoding(self.inner)"
//@ end
//@ fn {{DIR}}/{{CEFILE}} <{{CE}} as Deref>::deref
//@ bare
//@ rewrite "Self::Target" => "Encoding"
//@ ret r
ensures *r == self.inner,
//@ end
//@ fn {{DIR}}/{{CEFILE}} <{{CE}} as DerefMut>::deref_mut
//@ bare
//@ rewrite "Self::Target" => "Encoding"
//@ ret r
ensures *r == old(self).inner, *final(r) == final(self).inner,
//@ end
//@ fn {{DIR}}/{{CEFILE}} <{{CE}} as PartialEq<Encoding>>::eq
//@ bare
//@ rename eq_encoding
//@ ret r
ensures r == (self.inner == *other),
//@ rewrite "&self.inner == other" => "self.inner == *other"
//@ end
//@ fn {{DIR}}/{{CEFILE}} <{{CE}} as PartialEq<&Encoding>>::eq
//@ bare
//@ rename eq_encoding_ref
//@ ret r
ensures r == (self.inner == **other),
//@ rewrite "&&self.inner == other" => "self.inner == **other"
//@ end
}
impl FromSpecImpl<Encoding> for {{CE}} {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Encoding) -> Self { {{CE}} { inner: v } }
}
//@ impl {{DIR}}/{{CEFILE}} <{{CE}} as From<Encoding>>
//@ fn {{DIR}}/{{CEFILE}} from
//@ end
//@ endimpl
impl FromSpecImpl<EncodingProposal> for {{CE}} {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: EncodingProposal) -> Self { {{CE}} { inner: v.encoding } }
}
//@ impl {{DIR}}/{{CEFILE}} <{{CE}} as From<EncodingProposal>>
//@ fn {{DIR}}/{{CEFILE}} from
//@ end
//@ endimpl
// Content-Encoding and Transfer-Encoding read back as written
pub proof fn lemma_coding_reads(e: Encoding) ensures coding(trim(coding_text(e))) == Some(e) { lemma_coding(e); lemma_trim_id(coding_text(e)); }
//@ fn {{DIR}}/{{AEFILE}} {{AE}}::new
//@ ret r
ensures !r.wildcard, r.entries@.len() == 0,
//@ end
//@ fn {{DIR}}/{{AEFILE}} {{AE}}::push
ensures final(self).wildcard == old(self).wildcard, final(self).entries@ == old(self).entries@.push(prop), e_ok(old(self).entries@) && wok(prop.weight) ==> e_ok(final(self).entries@),
//@ rewrite "prop: impl Into<EncodingProposal>" => "prop: EncodingProposal"
//@ rewrite "prop.into()" => "prop"
//@ end
//@ fn {{DIR}}/{{AEFILE}} {{AE}}::wildcard
//@ ret r
ensures r == self.wildcard,
//@ end
//@ fn {{DIR}}/{{AEFILE}} {{AE}}::set_wildcard
ensures final(self).wildcard == wildcard, final(self).entries == old(self).entries,
//@ end
impl {{AE}} {
//@ fn {{DIR}}/{{AEFILE}} <{{AE}} as Header>::header_value
//@ bare
//@ ret r
requires e_ok(self.entries@),
ensures r.inner@ == joined(all_texts(self.wildcard, self.entries@)), accepted(seq![r.inner@]) == Some((self.wildcard, all_kept(self.entries@))),
//@ fmt
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite "let directive: HeaderValue = (*directive).into();" => "let directive: HeaderValue = HeaderValue::of_proposal(*directive);"
//@ rewrite "output.len()" => "str_len(&output)"
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
let ghost es = entry_texts(self.entries@);
proof { reveal_strlit(", "); reveal_strlit("*"); reveal_strlit(", *"); let n = self.entries.len(); assert(es.subrange(0, 0) =~= seq![]); lemma_written_reads(self.wildcard, self.entries@); }
//@ loop 0 it=it
invariant
    it.seq().len() == self.entries@.len(),
    forall|i: int| 0 <= i < self.entries@.len() ==> *(#[trigger] it.seq()[i]) == self.entries@[i],
    vx_n0 == it.index@,
    output@ == joined(es.subrange(0, it.index@)),
    it.index@ > 0 ==> output@.len() > 0,
    ascii_chars(output@),
//@ at loop 0 start
let ghost k = it.index@;
proof {
    assert(es[k] == entry_text(self.entries@[k]));
    lemma_entry(self.entries@[k]);
    lemma_joined_push(es.subrange(0, k), es[k]);
    assert(es.subrange(0, k + 1) =~= es.subrange(0, k).push(es[k]));
}
//@ at loop 0 end
proof { assert(output@ =~= joined(es.subrange(0, k + 1))); }
//@ at loop 0 after
proof { assert(", *"@ =~= ", "@ + "*"@); assert(es.subrange(0, es.len() as int) =~= es); lemma_joined_push(es, "*"@); if output@.len() > 0 { lemma_off_mono(output@, 0, output@.len() as int); } }
let ghost j = output@;
//@ at tail
proof { assert(output@ =~= joined(all_texts(self.wildcard, self.entries@))); }
//@ end
}
}
fn main() {}
