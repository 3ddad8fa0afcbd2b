//@ include coding_spec.inc DIR={{DIR}} CE={{CE}} CEFILE={{CEFILE}} AE={{AE}} AEFILE={{AEFILE}}
//@ fn {{DIR}}/encoding.rs Encoding::from_str
//@ ret r
ensures r == coding(trim(s@)),
//@ rewrite "s.trim()" => "str_trim(s)"
//@ rewrite "s.is_empty()" => "str_is_empty(s)"
//@ at start
broadcast use axiom_str_ext;
proof { reveal_strlit("gzip"); reveal_strlit("deflate"); reveal_strlit("br"); reveal_strlit("zstd"); reveal_strlit("identity"); reveal_strlit("chunked"); }
//@ end
//@ fn {{DIR}}/encoding_proposal.rs EncodingProposal::new
//@ ret r
ensures match r { Ok(p) => wok(weight) && p == (EncodingProposal { encoding, weight }), Err(_) => !wok(weight) },
//@ rewrite "encoding: impl Into<Encoding>" => "encoding: Encoding"
//@ rewrite "weight.is_sign_positive() && weight <= 1.0" => "f32_in_unit(weight)"
//@ rewrite "encoding: encoding.into()" => "encoding"
//@ end
//@ fn {{DIR}}/encoding_proposal.rs EncodingProposal::encoding
//@ ret r
ensures *r == self.encoding,
//@ end
//@ fn {{DIR}}/encoding_proposal.rs EncodingProposal::weight
//@ ret r
ensures r == self.weight,
//@ end
//@ fn {{DIR}}/encoding_proposal.rs EncodingProposal::from_str
//@ ret r
ensures
    match element(s@) {
        Element::Bad => r is Err && (r->Err_0).status == StatusCode::BadRequest,
        Element::Skip => r == Ok::<Option<EncodingProposal>, Error>(None),
        Element::Entry(e) => r == Ok::<Option<EncodingProposal>, Error>(Some(e)),
    },
//@ rewrite "s.split(';')" => "Parts::new(s, ';')"
//@ at start
proof { lemma_splits(s@, ';'); }
//@ end
impl Weighted for EncodingProposal {
    open spec fn ok(&self) -> bool { wok(self.weight) }
    open spec fn key(&self) -> int { wkey(self.weight) }
//@ fn {{DIR}}/encoding_proposal.rs <EncodingProposal as PartialOrd>::partial_cmp
//@ bare
//@ novis
//@ rewrite "left.partial_cmp(&right)" => "f32_cmp(left, right)"
//@ rewrite "std::cmp::Ordering" => "Ordering"
//@ at start
broadcast use axiom_unit;
//@ end
}
#[verifier::external_body]
pub fn contains_enc(v: &[Encoding], e: &Encoding) -> (r: bool) ensures r == v@.contains(*e) { unimplemented!() }
#[verifier::external_body]
pub fn find_enc<'a, F: Fn(&Encoding) -> bool>(v: &'a [Encoding], Ghost(p): Ghost<spec_fn(Encoding) -> bool>, f: F) -> (r: Option<&'a Encoding>)
    requires forall|e: &Encoding| f.requires((e,)), forall|e: &Encoding, b: bool| f.ensures((e,), b) ==> b == p(*e),
    ensures match r {
        Some(e) => exists|k: int| 0 <= k < v@.len() && #[trigger] v@[k] == *e && p(*e) && forall|j: int| 0 <= j < k ==> !p(#[trigger] v@[j]),
        None => forall|j: int| 0 <= j < v@.len() ==> !p(#[trigger] v@[j]),
    },
{ unimplemented!() }
pub open spec fn eligible(v: Seq<EncodingProposal>, a: Seq<Encoding>, i: int) -> bool { 0 <= i < v.len() && a.contains(v[i].encoding) && !zero(v[i].weight) }
pub open spec fn best(v: Seq<EncodingProposal>, a: Seq<Encoding>, i: int) -> bool {
    eligible(v, a, i) && forall|j: int| #[trigger] eligible(v, a, j) ==> wkey(v[j].weight) < wkey(v[i].weight) || (wkey(v[j].weight) == wkey(v[i].weight) && j <= i)
}
pub open spec fn refuses(v: Seq<EncodingProposal>, e: Encoding) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).encoding == e && zero(v[i].weight) }
pub open spec fn fallback(v: Seq<EncodingProposal>, a: Seq<Encoding>, k: int) -> bool {
    0 <= k < a.len() && !refuses(v, a[k]) && forall|j: int| 0 <= j < k ==> refuses(v, #[trigger] a[j])
}
pub open spec fn negotiated(v: Seq<EncodingProposal>, any: bool, a: Seq<Encoding>, r: Option<Encoding>) -> bool {
    if exists|i: int| eligible(v, a, i) { exists|i: int| #[trigger] best(v, a, i) && r == Some(v[i].encoding) }
    else if any && (exists|k: int| fallback(v, a, k)) { exists|k: int| #[trigger] fallback(v, a, k) && r == Some(a[k]) }
    else { r is None }
}
impl FromSpecImpl<&EncodingProposal> for {{CE}} {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &EncodingProposal) -> Self { {{CE}} { inner: v.encoding } }
}
//@ impl {{DIR}}/{{CEFILE}} <{{CE}} as From<&EncodingProposal>>
//@ fn {{DIR}}/{{CEFILE}} from
//@ end
//@ endimpl
impl FromSpecImpl<&Encoding> for {{CE}} {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &Encoding) -> Self { {{CE}} { inner: *v } }
}
//@ impl {{DIR}}/{{CEFILE}} <{{CE}} as From<&Encoding>>
//@ fn {{DIR}}/{{CEFILE}} from
//@ end
//@ endimpl
//@ fn {{DIR}}/{{AEFILE}} {{AE}}::sort
requires e_ok(old(self).entries@),
ensures final(self).wildcard == old(self).wildcard, ordered(old(self).entries@, final(self).entries@),
//@ end
//@ fn {{DIR}}/{{AEFILE}} {{AE}}::negotiate
//@ ret r
requires e_ok(old(self).entries@),
ensures
    negotiated(old(self).entries@, old(self).wildcard, available@, match r { Ok(c) => Some(c.inner), Err(_) => None }),
    r matches Err(e) ==> e.status == StatusCode::NotAcceptable,
//@ rewrite "available.contains(encoding)" => "contains_enc(available, &encoding.encoding)"
//@ rewrite "encoding.weight() != Some(0.0)" => "!is_zero(encoding.weight())"
//@ rewrite "available.iter().find(" => "find_enc(available, Ghost(|e: Encoding| !refuses(sorted, e)), "
//@ rewrite "self\n                    .entries\n                    .iter()\n                    .any(" => "any_of(&self.entries, Ghost(|p: EncodingProposal| p.encoding == *e && zero(p.weight)), "
//@ rewrite "p.encoding == **e" => "p.encoding == *e"
//@ rewrite "p.weight() == Some(0.0)" => "is_zero(p.weight())"
//@ rewrite "err.set_status(StatusCode::NotAcceptable)" => "set_status_code(&mut err, StatusCode::NotAcceptable)"
//@ closure 0 types="&Encoding" ret="y: bool"
ensures y == !refuses(sorted, *e),
//@ closure 1 types="&EncodingProposal" ret="y: bool"
ensures y == (p.encoding == *e && zero(p.weight)),
//@ at stmt 1
let ghost sorted = self.entries@;
let ghost p = choose|p: Seq<int>| #[trigger] by_weight(old(self).entries@, sorted, p);
proof {
    assert forall|l: int| 0 <= l < sorted.len() implies eligible(old(self).entries@, available@, #[trigger] p[l]) == eligible(sorted, available@, l) by {}
    assert forall|e: Encoding| #[trigger] refuses(old(self).entries@, e) == refuses(sorted, e) by {
        if refuses(old(self).entries@, e) {
            let i = choose|i: int| 0 <= i < sorted.len() && (#[trigger] old(self).entries@[i]).encoding == e && zero(old(self).entries@[i].weight);
            assert(hit(p, i));
            let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k] == i;
            assert(sorted[k].encoding == e);
        }
        if refuses(sorted, e) {
            let k = choose|k: int| 0 <= k < sorted.len() && (#[trigger] sorted[k]).encoding == e && zero(sorted[k].weight);
            assert(old(self).entries@[p[k]].encoding == e);
        }
    }
}
//@ at loop 0 start
proof {
    let n = it.index@;
    let o = old(self).entries@;
    if eligible(sorted, available@, n) {
        assert forall|j: int| #[trigger] eligible(o, available@, j) implies wkey(o[j].weight) < wkey(o[p[n]].weight) || (wkey(o[j].weight) == wkey(o[p[n]].weight) && j <= p[n]) by {
            assert(hit(p, j));
            let l = choose|l: int| 0 <= l < p.len() && #[trigger] p[l] == j;
            assert(eligible(sorted, available@, l));
            if l > n { assert(sorted[n].key() > sorted[l].key() || (sorted[n].key() == sorted[l].key() && p[n] > p[l])); }
        }
        assert(best(o, available@, p[n]));
    }
}
//@ at before-call into#1
proof {
    let k = choose|k: int| 0 <= k < available@.len() && #[trigger] available@[k] == *encoding && forall|j: int| 0 <= j < k ==> refuses(sorted, #[trigger] available@[j]);
    assert(fallback(old(self).entries@, available@, k));
}
//@ at loop 0 after
proof {
    let o = old(self).entries@;
    assert forall|i: int| !eligible(o, available@, i) by {
        if eligible(o, available@, i) {
            assert(hit(p, i));
            let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k] == i;
            assert(eligible(sorted, available@, k));
        }
    }
}
//@ loop 0 it=it
invariant
    it.seq().len() == sorted.len(), self.entries@ == sorted,
    forall|i: int| 0 <= i < sorted.len() ==> *(#[trigger] it.seq()[i]) == sorted[i],
    forall|k: int| 0 <= k < it.index@ ==> !eligible(sorted, available@, k),
    by_weight(old(self).entries@, sorted, p),
//@ end
//@ fn {{DIR}}/{{AEFILE}} {{AE}}::from_headers
//@ ret r
ensures
    match header_values(headers, "{{NAME}}"@) {
        None => r == Ok::<Option<{{AE}}>, Error>(None),
        Some(vs) => match accepted(texts(vs)) {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(x) => r is Ok && r->Ok_0 is Some && (r->Ok_0->0).wildcard == x.0 && (r->Ok_0->0).entries@ == x.1 && e_ok(x.1),
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get({{CONST}})" => "header_get(headers, \"{{NAME}}\")"
//@ rewrite "value.as_str().trim().split(',')" => "str_split(str_trim(value.as_str()), ',')"
//@ rewrite "part.trim()" => "str_trim(part)"
//@ rewrite "part.is_empty()" => "str_is_empty(part)"
//@ rewrite "part == \"*\"" => "str_eq(part, \"*\")"
//@ attr #[verifier::loop_isolation(false)]
//@ at start
let ghost z: Option<(bool, Seq<EncodingProposal>)> = Some((false, seq![]));
proof { lemma_ae_strict(); }
//@ loop 0 it=it
invariant
    it.seq().len() == headers@.len(),
    forall|i: int| 0 <= i < headers@.len() ==> *(#[trigger] it.seq()[i]) == headers@[i],
    fold(texts(headers@), it.index@, z, ae_line()) == Some((wildcard, entries@)),
    e_ok(entries@),
//@ at loop 0 start
let ghost n = it.index@;
let ghost vs = texts(headers@);
let ghost a = fold(vs, n, z, ae_line());
let ghost ps = splits(trim(value.inner@), ',');
proof { assert(vs[n] == value.inner@); assert(fold(vs, n + 1, z, ae_line()) == fold(ps, ps.len() as int, a, ae_step())); }
//@ loop 1 it=it2
invariant
    it2.seq().len() == ps.len(),
    forall|i: int| 0 <= i < ps.len() ==> (#[trigger] it2.seq()[i])@ == ps[i],
    fold(ps, it2.index@, a, ae_step()) == Some((wildcard, entries@)),
    e_ok(entries@),
//@ at loop 1 start
let ghost m = it2.index@;
proof {
    assert(part@ == ps[m]);
    assert(fold(ps, m + 1, a, ae_step()) == ae_step()(fold(ps, m, a, ae_step()), ps[m]));
    if fold(ps, m + 1, a, ae_step()) is None { lemma_fold_none(ps, m + 1, ps.len() as int, a, ae_step()); lemma_fold_none(vs, n + 1, vs.len() as int, z, ae_line()); }
}
//@ end
pub open spec fn last_coding(vs: Seq<Seq<char>>) -> Option<Encoding> decreases vs.len() {
    if vs.len() == 0 { None } else { match coding(trim(vs.last())) { Some(e) => Some(e), None => last_coding(vs.drop_last()) } }
}
//@ fn {{DIR}}/{{CEFILE}} {{CE}}::from_headers
//@ ret r
ensures
    match header_values(headers, "{{CENAME}}"@) {
        None => r == Ok::<Option<{{CE}}>, Error>(None),
        Some(vs) => match last_coding(texts(vs)) {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(e) => r == Ok::<Option<{{CE}}>, Error>(Some({{CE}} { inner: e })),
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get({{CECONST}})" => "header_get(headers, \"{{CENAME}}\")"
//@ attr #[verifier::loop_isolation(false)]
//@ loop 0 it=it
invariant
    it.seq().len() == headers@.len(),
    forall|i: int| 0 <= i < headers@.len() ==> *(#[trigger] it.seq()[i]) == headers@[i],
    inner == last_coding(texts(headers@).subrange(0, it.index@)),
//@ at loop 0 start
proof {
    let vs = texts(headers@);
    assert(vs[it.index@] == value.inner@);
    assert(vs.subrange(0, it.index@ + 1).drop_last() =~= vs.subrange(0, it.index@));
}
//@ at loop 0 after
proof { assert(texts(headers@).subrange(0, headers@.len() as int) =~= texts(headers@)); }
//@ end
