//@ # P09: Accept written; the conversions of media type proposals.
//@ include hdr.inc
use std::cmp::Ordering;
//@ include floats.inc
//@ include weight_text.inc
// TRUSTED (contracts discharged in units mime and mime_text): the text a Mime writes.
#[verifier::external_body]
pub struct Mime(u8);
pub uninterp spec fn mtext(m: Mime) -> Seq<char>;
pub uninterp spec fn same_mime(a: Mime, b: Mime) -> bool;
impl Show for Mime { open spec fn shown(&self) -> Seq<char> { mtext(*self) } }
#[verifier::external_body]
pub fn mime_eq(a: &Mime, b: &Mime) -> (r: bool) ensures r == same_mime(*a, *b) { unimplemented!() }
//@ item src/content/media_type_proposal.rs struct MediaTypeProposal
//@ item src/content/content_type.rs struct ContentType
//@ item src/content/accept.rs struct Accept
pub open spec fn m_ok(v: Seq<MediaTypeProposal>) -> bool { forall|i: int| 0 <= i < v.len() ==> m_ok1(#[trigger] v[i]) }
// header values are ASCII: the text of every media type that can be written here is (P07)
pub open spec fn m_ok1(p: MediaTypeProposal) -> bool { wok(p.weight) && ascii_chars(mtext(p.media_type)) && mtext(p.media_type).len() > 0 }
impl MediaTypeProposal {
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: MediaTypeProposal) ensures r == *self { unimplemented!() }
}
pub open spec fn entry_text(p: MediaTypeProposal) -> Seq<char> {
    match p.weight { None => mtext(p.media_type), Some(w) => mtext(p.media_type) + ";q="@ + wtext(w) }
}
pub open spec fn entry_texts(es: Seq<MediaTypeProposal>) -> Seq<Seq<char>> { es.map_values(|e: MediaTypeProposal| entry_text(e)) }
pub open spec fn all_texts(any: bool, es: Seq<MediaTypeProposal>) -> Seq<Seq<char>> { if any { entry_texts(es).push("*"@) } else { entry_texts(es) } }
pub proof fn lemma_entry(p: MediaTypeProposal)
    requires m_ok1(p),
    ensures ascii_chars(entry_text(p)), entry_text(p).len() > 0,
{ reveal_strlit(";q="); match p.weight { None => {}, Some(w) => { axiom_wtext(w); } } }
impl HeaderValue {
//@ fn src/content/media_type_proposal.rs <HeaderValue as From<MediaTypeProposal>>::from
//@ bare
//@ rename of_proposal
//@ ret r
requires m_ok1(entry),
ensures r.inner@ == entry_text(entry),
//@ fmt
//@ rewrite "entry.media_type.to_string()" => "vx_to_string(&entry.media_type)"
//@ at start
broadcast use axiom_utf8_ascii;
proof { lemma_entry(entry); reveal_strlit(";q="); }
//@ at stmt 1
proof { assert(s@ =~= entry_text(entry)); }
//@ end
}
impl FromSpecImpl<Mime> for MediaTypeProposal {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Mime) -> Self { MediaTypeProposal { media_type: v, weight: None } }
}
//@ impl src/content/media_type_proposal.rs <MediaTypeProposal as From<Mime>>
//@ fn src/content/media_type_proposal.rs from
//@ end
//@ endimpl
impl FromSpecImpl<MediaTypeProposal> for Mime {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: MediaTypeProposal) -> Self { v.media_type }
}
//@ impl src/content/media_type_proposal.rs <Mime as From<MediaTypeProposal>>
//@ fn src/content/media_type_proposal.rs from
//@ end
//@ endimpl
impl MediaTypeProposal {
//@ fn src/content/media_type_proposal.rs <MediaTypeProposal as PartialEq<Mime>>::eq
//@ bare
//@ rename eq_mime
//@ ret r
ensures r == same_mime(self.media_type, *other),
//@ rewrite "self.media_type == *other" => "mime_eq(&self.media_type, other)"
//@ end
//@ fn src/content/media_type_proposal.rs <&MediaTypeProposal as PartialEq<Mime>>::eq
//@ bare
//@ rename ref_eq_mime
//@ ret r
ensures r == same_mime(self.media_type, *other),
//@ rewrite "self.media_type == *other" => "mime_eq(&self.media_type, other)"
//@ end
//@ fn src/content/media_type_proposal.rs <MediaTypeProposal as Deref>::deref
//@ bare
//@ rewrite "Self::Target" => "Mime"
//@ ret r
ensures *r == self.media_type,
//@ end
//@ fn src/content/media_type_proposal.rs <MediaTypeProposal as DerefMut>::deref_mut
//@ bare
//@ rewrite "Self::Target" => "Mime"
//@ ret r
ensures *r == old(self).media_type, *final(r) == final(self).media_type, final(self).weight == old(self).weight,
//@ end
}
impl ContentType {
//@ fn src/content/content_type.rs <ContentType as PartialEq<Mime>>::eq
//@ bare
//@ rename eq_mime
//@ ret r
ensures r == same_mime(self.media_type, *other),
//@ rewrite "&self.media_type == other" => "mime_eq(&self.media_type, other)"
//@ end
//@ fn src/content/content_type.rs <ContentType as PartialEq<&Mime>>::eq
//@ bare
//@ rename eq_mime_ref
//@ ret r
ensures r == same_mime(self.media_type, **other),
//@ rewrite "&&self.media_type == other" => "mime_eq(&self.media_type, *other)"
//@ end
}
//@ fn src/content/accept.rs Accept::new
//@ ret r
ensures !r.wildcard, r.entries@.len() == 0,
//@ end
//@ fn src/content/accept.rs Accept::push
ensures final(self).wildcard == old(self).wildcard, final(self).entries@ == old(self).entries@.push(prop), m_ok(old(self).entries@) && m_ok1(prop) ==> m_ok(final(self).entries@),
//@ rewrite "prop: impl Into<MediaTypeProposal>" => "prop: MediaTypeProposal"
//@ rewrite "prop.into()" => "prop"
//@ end
//@ fn src/content/accept.rs Accept::wildcard
//@ ret r
ensures r == self.wildcard,
//@ end
//@ fn src/content/accept.rs Accept::set_wildcard
ensures final(self).wildcard == wildcard, final(self).entries == old(self).entries,
//@ end
impl Accept {
//@ fn src/content/accept.rs <Accept as Header>::header_value
//@ bare
//@ ret r
requires m_ok(self.entries@),
ensures r.inner@ == joined(all_texts(self.wildcard, self.entries@)),
//@ fmt
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite "let directive: HeaderValue = directive.clone().into();" => "let directive: HeaderValue = HeaderValue::of_proposal(directive.vx_clone());"
//@ rewrite "output.len()" => "str_len(&output)"
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
let ghost es = entry_texts(self.entries@);
proof { reveal_strlit(", "); reveal_strlit("*"); reveal_strlit(", *"); let n = self.entries.len(); assert(es.subrange(0, 0) =~= seq![]); }
//@ loop 0 it=it
invariant
    it.seq().len() == self.entries@.len(),
    forall|i: int| 0 <= i < self.entries@.len() ==> *(#[trigger] it.seq()[i]) == self.entries@[i],
    vx_n0 == it.index@,
    output@ == joined(es.subrange(0, it.index@)),
    it.index@ > 0 ==> output@.len() > 0,
    ascii_chars(output@),
//@ at loop 0 start
let ghost k = it.index@;
proof {
    assert(es[k] == entry_text(self.entries@[k]));
    lemma_entry(self.entries@[k]);
    lemma_joined_push(es.subrange(0, k), es[k]);
    assert(es.subrange(0, k + 1) =~= es.subrange(0, k).push(es[k]));
}
//@ at loop 0 end
proof { assert(output@ =~= joined(es.subrange(0, k + 1))); }
//@ at loop 0 after
proof { assert(", *"@ =~= ", "@ + "*"@); assert(es.subrange(0, es.len() as int) =~= es); lemma_joined_push(es, "*"@); if output@.len() > 0 { lemma_off_mono(output@, 0, output@.len() as int); } }
let ghost j = output@;
//@ at tail
proof { assert(output@ =~= joined(all_texts(self.wildcard, self.entries@))); }
//@ end
}
}
fn main() {}
