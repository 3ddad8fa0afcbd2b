//@ item {{FILE}} struct {{TYPE}}
//@ fn {{FILE}} {{TYPE}}::new
//@ ret r
ensures !r.wildcard, r.entries@.len() == 0,
//@ end
//@ fn {{FILE}} {{TYPE}}::wildcard
//@ ret r
ensures r == self.wildcard,
//@ end
//@ fn {{FILE}} {{TYPE}}::set_wildcard
ensures final(self).wildcard == wildcard, final(self).entries == old(self).entries,
//@ end
//@ fn {{FILE}} {{TYPE}}::push
ensures final(self).wildcard == old(self).wildcard, final(self).entries@ == old(self).entries@.push(directive),
//@ rewrite "directive: impl Into<ETag>" => "directive: ETag"
//@ rewrite "directive.into()" => "directive"
//@ end
//@ fn {{FILE}} {{TYPE}}::from_headers
//@ ret r
ensures
    match header_values(headers, "{{NAME}}"@) {
        None => r == Ok::<Option<{{TYPE}}>, Error>(None),
        Some(vs) => match tag_list(texts(vs)) {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(x) => r is Ok && r->Ok_0 is Some && (r->Ok_0->0).wildcard == x.0 && tags((r->Ok_0->0).entries@) == x.1,
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get({{CONST}})" => "header_get(headers, \"{{NAME}}\")"
//@ rewrite "part.trim()" => "str_trim(part)"
//@ rewrite "part.is_empty()" => "str_is_empty(part)"
//@ rewrite "part == \"*\"" => "str_eq(part, \"*\")"
//@ attr #[verifier::loop_isolation(false)]
//@ at start
let ghost z: Option<Tags> = Some((false, seq![]));
proof { lemma_tag_strict(); }
//@ at stmt 1
proof { assert(tags(entries@) =~= seq![]); reveal_strlit("*"); }
//@ loop 0 it=it
invariant
    it.seq().len() == headers@.len(),
    forall|i: int| 0 <= i < headers@.len() ==> *(#[trigger] it.seq()[i]) == headers@[i],
    fold(texts(headers@), it.index@, z, tag_line()) == Some((wildcard, tags(entries@))),
//@ at loop 0 start
let ghost n = it.index@;
let ghost vs = texts(headers@);
let ghost a = fold(vs, n, z, tag_line());
let ghost ps = tag_splits(value.inner@);
proof { assert(vs[n] == value.inner@); assert(fold(vs, n + 1, z, tag_line()) == fold(ps, ps.len() as int, a, tag_step())); }
//@ loop 1 it=it2
invariant
    it2.seq().len() == ps.len(),
    forall|i: int| 0 <= i < ps.len() ==> (#[trigger] it2.seq()[i])@ == ps[i],
    fold(ps, it2.index@, a, tag_step()) == Some((wildcard, tags(entries@))),
//@ at loop 1 start
let ghost m = it2.index@;
let ghost before = entries@;
proof {
    assert(part@ == ps[m]);
    assert(fold(ps, m + 1, a, tag_step()) == tag_step()(fold(ps, m, a, tag_step()), ps[m]));
    if fold(ps, m + 1, a, tag_step()) is None { lemma_fold_none(ps, m + 1, ps.len() as int, a, tag_step()); lemma_fold_none(vs, n + 1, vs.len() as int, z, tag_line()); }
}
//@ at loop 1 end
proof { if entries@.len() > before.len() { assert(tags(entries@) =~= tags(before).push(tagv(entries@.last()))); } }
//@ end
impl {{TYPE}} {
//@ fn {{FILE}} <{{TYPE}} as Header>::header_value
//@ bare
//@ ret r
requires forall|i: int| 0 <= i < self.entries@.len() ==> ascii_chars(tagv(#[trigger] self.entries@[i]).1),
ensures r.inner@ == list_text((self.wildcard, tags(self.entries@))),
//@ fmt
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite "output.len()" => "str_len(&output)"
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
let ghost es = tag_texts(tags(self.entries@));
proof { reveal_strlit(", "); reveal_strlit("*"); reveal_strlit(", *"); let n = self.entries.len(); }
//@ at stmt 1
proof { assert(es.subrange(0, 0) =~= seq![]); }
//@ loop 0 it=it
invariant
    it.seq().len() == self.entries@.len(),
    forall|i: int| 0 <= i < self.entries@.len() ==> *(#[trigger] it.seq()[i]) == self.entries@[i],
    vx_n0 == it.index@,
    output@ == joined(es.subrange(0, it.index@)),
    ascii_chars(output@),
//@ at loop 0 start
let ghost k = it.index@;
proof {
    assert(es[k] == tag_text(tagv(self.entries@[k])));
    lemma_joined_push(es.subrange(0, k), es[k]);
    assert(es.subrange(0, k + 1) =~= es.subrange(0, k).push(es[k]));
}
//@ at loop 0 end
proof { assert(output@ =~= joined(es.subrange(0, k + 1))); }
//@ at loop 0 after
proof { assert(es.subrange(0, es.len() as int) =~= es); if output@.len() > 0 { lemma_off_mono(output@, 0, output@.len() as int); } }
//@ end
}
