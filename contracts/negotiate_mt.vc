//@ # P09: media types: parsing of Accept, negotiation.
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::{hash_map, HashMap};
//@ include head.inc
//@ include header_types.inc
//@ item src/headers/header_name.rs struct HeaderName #[derive(PartialEq, Eq, Hash, Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ item src/headers/header_value.rs struct HeaderValue
//@ item src/headers/header_values.rs struct HeaderValues
//@ item src/headers/headers.rs struct Headers
//@ fn src/headers/header_value.rs HeaderValue::as_str
//@ ret r
ensures r@ == self.inner@,
//@ end
//@ include str_shims.inc
//@ include status_trait.inc
//@ include lists.inc
//@ include parts.inc
//@ include weights.inc
// TRUSTED (contracts discharged in unit mime): what P07 says about Mime.
#[verifier::external_body]
pub struct Mime(u8);
pub struct ParamValue(pub Cow<'static, str>);
pub uninterp spec fn mime_of(s: Seq<char>) -> Option<Mime>;
pub uninterp spec fn covered(m: Mime, range: Mime) -> bool;
pub uninterp spec fn param(m: Mime, name: Seq<char>) -> Option<ParamValue>;
pub uninterp spec fn without(m: Mime, name: Seq<char>) -> Mime;
pub uninterp spec fn ptext(p: ParamValue) -> Seq<char>;
impl ParamValue {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == ptext(*self) { unimplemented!() }
}
impl Mime {
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<Mime, Error>) ensures match r { Ok(m) => mime_of(s@) == Some(m), Err(_) => mime_of(s@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_param(&mut self, name: &str) -> (r: Option<ParamValue>) ensures r == param(*old(self), name@), *final(self) == without(*old(self), name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn subset_eq(&self, other: &Mime) -> (r: bool) ensures r == covered(*self, *other) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Mime) ensures r == *self { unimplemented!() }
}
pub uninterp spec fn one_spec() -> f32;
pub broadcast axiom fn axiom_one(w: f32) ensures unit(one_spec()), #[trigger] unit(w) ==> fkey(w) <= fkey(one_spec());
#[verifier::external_body]
pub fn one() -> (r: f32) ensures r == one_spec() { 1.0 }
//@ item src/content/media_type_proposal.rs struct MediaTypeProposal
//@ item src/content/content_type.rs struct ContentType
//@ item src/content/accept.rs struct Accept
pub open spec fn m_ok(v: Seq<MediaTypeProposal>) -> bool { forall|i: int| 0 <= i < v.len() ==> wok((#[trigger] v[i]).weight) }
pub open spec fn proposal(s: Seq<char>) -> Option<MediaTypeProposal> {
    match mime_of(s) {
        None => None,
        Some(m) => match param(m, "q"@) {
            None => Some(MediaTypeProposal { media_type: without(m, "q"@), weight: Some(one_spec()) }),
            Some(p) => match float_of(ptext(p)) {
                Some(w) => if unit(w) { Some(MediaTypeProposal { media_type: without(m, "q"@), weight: Some(w) }) } else { None },
                None => None,
            },
        },
    }
}
//@ fn src/content/media_type_proposal.rs MediaTypeProposal::new
//@ ret r
ensures match r { Ok(p) => wok(weight) && p == (MediaTypeProposal { media_type, weight: Some(match weight { Some(w) => w, None => one_spec() }) }), Err(_) => !wok(weight) },
//@ rewrite "media_type: impl Into<Mime>" => "media_type: Mime"
//@ rewrite "weight.is_sign_positive() && weight <= 1.0" => "f32_in_unit(weight)"
//@ rewrite "media_type: media_type.into()" => "media_type"
//@ rewrite "weight: Some(1.0)" => "weight: Some(one())"
//@ end
//@ fn src/content/media_type_proposal.rs MediaTypeProposal::media_type
//@ ret r
ensures *r == self.media_type,
//@ end
//@ fn src/content/media_type_proposal.rs MediaTypeProposal::weight
//@ ret r
ensures r == self.weight,
//@ end
//@ fn src/content/media_type_proposal.rs MediaTypeProposal::from_str
//@ ret r
ensures
    match proposal(s@) {
        None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
        Some(p) => r == Ok::<MediaTypeProposal, Error>(p),
    },
//@ rewrite "param.as_str().parse::<f32>()" => "f32_parse(param.as_str())"
//@ closure 0 types="ParamValue" ret="y: Result<f32, ParseFloatError>"
ensures match y { Ok(w) => float_of(ptext(param)) == Some(w), Err(_) => float_of(ptext(param)) is None },
//@ at start
broadcast use axiom_one;
//@ end
impl Weighted for MediaTypeProposal {
    open spec fn ok(&self) -> bool { wok(self.weight) }
    open spec fn key(&self) -> int { wkey(self.weight) }
//@ fn src/content/media_type_proposal.rs <MediaTypeProposal as PartialOrd>::partial_cmp
//@ bare
//@ novis
//@ rewrite "left.partial_cmp(&right)" => "f32_cmp(left, right)"
//@ rewrite "std::cmp::Ordering" => "Ordering"
//@ at start
broadcast use axiom_unit;
//@ end
}
// TRUSTED: slice iter().find
#[verifier::external_body]
pub fn find_mime<'a, F: Fn(&Mime) -> bool>(v: &'a [Mime], Ghost(p): Ghost<spec_fn(Mime) -> bool>, f: F) -> (r: Option<&'a Mime>)
    requires forall|e: &Mime| f.requires((e,)), forall|e: &Mime, b: bool| f.ensures((e,), b) ==> b == p(*e),
    ensures match r {
        Some(e) => exists|k: int| 0 <= k < v@.len() && #[trigger] v@[k] == *e && p(*e) && forall|j: int| 0 <= j < k ==> !p(#[trigger] v@[j]),
        None => forall|j: int| 0 <= j < v@.len() ==> !p(#[trigger] v@[j]),
    },
{ unimplemented!() }
// the same with the negated predicate: `find(|m| !f(m))`
#[verifier::external_body]
pub fn find_mime_not<'a, F: Fn(&Mime) -> bool>(v: &'a [Mime], Ghost(p): Ghost<spec_fn(Mime) -> bool>, f: F) -> (r: Option<&'a Mime>)
    requires forall|e: &Mime| f.requires((e,)), forall|e: &Mime, b: bool| f.ensures((e,), b) ==> b == p(*e),
    ensures match r {
        Some(e) => exists|k: int| 0 <= k < v@.len() && #[trigger] v@[k] == *e && !p(*e) && forall|j: int| 0 <= j < k ==> p(#[trigger] v@[j]),
        None => forall|j: int| 0 <= j < v@.len() ==> p(#[trigger] v@[j]),
    },
{ unimplemented!() }
// an entry, and the first available type it covers
pub open spec fn fits(v: Seq<MediaTypeProposal>, a: Seq<Mime>, i: int, k: int) -> bool {
    0 <= i < v.len() && 0 <= k < a.len() && !zero(v[i].weight) && covered(a[k], v[i].media_type)
}
pub open spec fn eligible(v: Seq<MediaTypeProposal>, a: Seq<Mime>, i: int) -> bool { exists|k: int| #[trigger] fits(v, a, i, k) }
pub open spec fn best(v: Seq<MediaTypeProposal>, a: Seq<Mime>, i: int, k: int) -> bool {
    &&& fits(v, a, i, k)
    &&& forall|l: int| 0 <= l < k ==> !#[trigger] fits(v, a, i, l)
    &&& forall|j: int| #[trigger] eligible(v, a, j) ==> wkey(v[j].weight) < wkey(v[i].weight) || (wkey(v[j].weight) == wkey(v[i].weight) && j <= i)
}
pub open spec fn refuses(v: Seq<MediaTypeProposal>, m: Mime) -> bool { exists|i: int| 0 <= i < v.len() && zero((#[trigger] v[i]).weight) && covered(m, v[i].media_type) }
pub open spec fn fallback(v: Seq<MediaTypeProposal>, a: Seq<Mime>, k: int) -> bool {
    0 <= k < a.len() && !refuses(v, a[k]) && forall|j: int| 0 <= j < k ==> refuses(v, #[trigger] a[j])
}
pub open spec fn negotiated(v: Seq<MediaTypeProposal>, any: bool, a: Seq<Mime>, r: Option<Mime>) -> bool {
    if exists|i: int| eligible(v, a, i) { exists|i: int, k: int| #[trigger] best(v, a, i, k) && r == Some(a[k]) }
    else if any && (exists|k: int| fallback(v, a, k)) { exists|k: int| #[trigger] fallback(v, a, k) && r == Some(a[k]) }
    else { r is None }
}
impl FromSpecImpl<Mime> for ContentType {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Mime) -> Self { ContentType { media_type: v } }
}
//@ impl src/content/content_type.rs <ContentType as From<Mime>>
//@ fn src/content/content_type.rs from
//@ end
//@ endimpl
//@ fn src/content/accept.rs Accept::sort
requires m_ok(old(self).entries@),
ensures final(self).wildcard == old(self).wildcard, ordered(old(self).entries@, final(self).entries@),
//@ end
//@ fn src/content/accept.rs Accept::negotiate
//@ ret r
requires m_ok(old(self).entries@),
ensures
    negotiated(old(self).entries@, old(self).wildcard, available@, match r { Ok(c) => Some(c.media_type), Err(_) => None }),
    r matches Err(e) ==> e.status == StatusCode::NotAcceptable,
//@ rewrite "accept.weight() == Some(0.0)" => "is_zero(accept.weight())"
//@ rewrite "available.iter().find(|m| m.subset_eq(accept.media_type()))" => "find_mime(available, Ghost(|m: Mime| covered(m, accept.media_type)), |m: &Mime| -> (y: bool) ensures y == covered(*m, accept.media_type) { m.subset_eq(accept.media_type()) })"
//@ rewrite "available.iter().find(|m| !refused(m))" => "find_mime_not(available, Ghost(|m: Mime| refuses(sorted, m)), refused)"
//@ rewrite "self.entries\n                    .iter()\n                    .any(" => "any_of(&self.entries, Ghost(|p: MediaTypeProposal| zero(p.weight) && covered(*m, p.media_type)), "
//@ rewrite "p.weight() == Some(0.0)" => "is_zero(p.weight())"
//@ rewrite "err.set_status(StatusCode::NotAcceptable)" => "set_status_code(&mut err, StatusCode::NotAcceptable)"
//@ closure 1 types="&Mime" ret="y: bool"
ensures y == refuses(self.entries@, *m),
//@ closure 2 types="&MediaTypeProposal" ret="y: bool"
ensures y == (zero(p.weight) && covered(*m, p.media_type)),
//@ at stmt 1
let ghost sorted = self.entries@;
let ghost p = choose|p: Seq<int>| #[trigger] by_weight(old(self).entries@, sorted, p);
proof {
    assert forall|l: int, k: int| 0 <= l < sorted.len() implies fits(old(self).entries@, available@, #[trigger] p[l], k) == #[trigger] fits(sorted, available@, l, k) by {}
    assert forall|l: int| 0 <= l < sorted.len() implies eligible(old(self).entries@, available@, #[trigger] p[l]) == eligible(sorted, available@, l) by {
        if eligible(old(self).entries@, available@, p[l]) { let k = choose|k: int| #[trigger] fits(old(self).entries@, available@, p[l], k); assert(fits(sorted, available@, l, k)); }
        if eligible(sorted, available@, l) { let k = choose|k: int| #[trigger] fits(sorted, available@, l, k); assert(fits(old(self).entries@, available@, p[l], k)); }
    }
    assert forall|m: Mime| #[trigger] refuses(old(self).entries@, m) == refuses(sorted, m) by {
        if refuses(old(self).entries@, m) {
            let i = choose|i: int| 0 <= i < sorted.len() && zero((#[trigger] old(self).entries@[i]).weight) && covered(m, old(self).entries@[i].media_type);
            assert(hit(p, i));
            let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k] == i;
            assert(zero(sorted[k].weight));
        }
        if refuses(sorted, m) {
            let k = choose|k: int| 0 <= k < sorted.len() && zero((#[trigger] sorted[k]).weight) && covered(m, sorted[k].media_type);
            assert(zero(old(self).entries@[p[k]].weight));
        }
    }
}
//@ at before-call clone#0
proof {
    let n = it.index@;
    let o = old(self).entries@;
    let k = choose|k: int| 0 <= k < available@.len() && #[trigger] available@[k] == *accept && covered(*accept, sorted[n].media_type) && forall|j: int| 0 <= j < k ==> !covered(#[trigger] available@[j], sorted[n].media_type);
    assert(fits(sorted, available@, n, k));
    assert(eligible(sorted, available@, n));
    assert forall|l: int| 0 <= l < k implies !#[trigger] fits(o, available@, p[n], l) by { assert(!covered(available@[l], sorted[n].media_type)); }
    assert forall|j: int| #[trigger] eligible(o, available@, j) implies wkey(o[j].weight) < wkey(o[p[n]].weight) || (wkey(o[j].weight) == wkey(o[p[n]].weight) && j <= p[n]) by {
        assert(hit(p, j));
        let l = choose|l: int| 0 <= l < p.len() && #[trigger] p[l] == j;
        assert(eligible(sorted, available@, l));
        if l > n { assert(sorted[n].key() > sorted[l].key() || (sorted[n].key() == sorted[l].key() && p[n] > p[l])); }
    }
    assert(eligible(o, available@, p[n]));
    assert(best(o, available@, p[n], k));
}
//@ at before-call clone#1
proof {
    let k = choose|k: int| 0 <= k < available@.len() && #[trigger] available@[k] == *accept && forall|j: int| 0 <= j < k ==> refuses(sorted, #[trigger] available@[j]);
    assert(fallback(old(self).entries@, available@, k));
}
//@ at loop 0 after
proof {
    let o = old(self).entries@;
    assert forall|i: int| !eligible(o, available@, i) by {
        if eligible(o, available@, i) {
            let c = choose|c: int| #[trigger] fits(o, available@, i, c);
            assert(hit(p, i));
            let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k] == i;
            assert(eligible(sorted, available@, k));
        }
    }
}
//@ loop 0 it=it
invariant
    it.seq().len() == sorted.len(), self.entries@ == sorted,
    forall|i: int| 0 <= i < sorted.len() ==> *(#[trigger] it.seq()[i]) == sorted[i],
    forall|k: int| 0 <= k < it.index@ ==> !eligible(sorted, available@, k),
    by_weight(old(self).entries@, sorted, p),
    forall|l: int| 0 <= l < sorted.len() ==> eligible(old(self).entries@, available@, #[trigger] p[l]) == eligible(sorted, available@, l),
//@ end
pub open spec fn ae_step() -> spec_fn(Option<(bool, Seq<MediaTypeProposal>)>, Seq<char>) -> Option<(bool, Seq<MediaTypeProposal>)> {
    |acc: Option<(bool, Seq<MediaTypeProposal>)>, s: Seq<char>| match acc {
        None => None,
        Some(x) => { let t = trim(s);
            if t.len() == 0 { acc } else if t == "*"@ { Some((true, x.1)) }
            else { match proposal(t) { None => None, Some(e) => Some((x.0, x.1.push(e))) } } },
    }
}
pub open spec fn ae_line() -> spec_fn(Option<(bool, Seq<MediaTypeProposal>)>, Seq<char>) -> Option<(bool, Seq<MediaTypeProposal>)> {
    |acc: Option<(bool, Seq<MediaTypeProposal>)>, v: Seq<char>| { let ps = splits(trim(v), ','); fold(ps, ps.len() as int, acc, ae_step()) }
}
pub open spec fn accepted(vs: Seq<Seq<char>>) -> Option<(bool, Seq<MediaTypeProposal>)> { fold(vs, vs.len() as int, Some((false, seq![])), ae_line()) }
pub proof fn lemma_ae_strict() ensures strict(ae_step()), strict(ae_line())
{
    assert forall|v: Seq<char>| #[trigger] ae_line()(None, v) is None by { let ps = splits(trim(v), ','); lemma_fold_none(ps, 0, ps.len() as int, None, ae_step()); }
}
//@ fn src/content/accept.rs Accept::from_headers
//@ ret r
ensures
    match header_values(headers, "accept"@) {
        None => r == Ok::<Option<Accept>, Error>(None),
        Some(vs) => match accepted(texts(vs)) {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(x) => r is Ok && r->Ok_0 is Some && (r->Ok_0->0).wildcard == x.0 && (r->Ok_0->0).entries@ == x.1 && m_ok(x.1),
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(ACCEPT)" => "header_get(headers, \"accept\")"
//@ rewrite "value.as_str().trim().split(',')" => "str_split(str_trim(value.as_str()), ',')"
//@ rewrite "part.trim()" => "str_trim(part)"
//@ rewrite "part.is_empty()" => "str_is_empty(part)"
//@ rewrite "part == \"*\"" => "str_eq(part, \"*\")"
//@ attr #[verifier::loop_isolation(false)]
//@ at start
broadcast use axiom_one;
let ghost z: Option<(bool, Seq<MediaTypeProposal>)> = Some((false, seq![]));
proof { lemma_ae_strict(); }
//@ loop 0 it=it
invariant
    it.seq().len() == headers@.len(),
    forall|i: int| 0 <= i < headers@.len() ==> *(#[trigger] it.seq()[i]) == headers@[i],
    fold(texts(headers@), it.index@, z, ae_line()) == Some((wildcard, entries@)),
    m_ok(entries@),
//@ at loop 0 start
let ghost n = it.index@;
let ghost vs = texts(headers@);
let ghost a = fold(vs, n, z, ae_line());
let ghost ps = splits(trim(value.inner@), ',');
proof { assert(vs[n] == value.inner@); assert(fold(vs, n + 1, z, ae_line()) == fold(ps, ps.len() as int, a, ae_step())); }
//@ loop 1 it=it2
invariant
    it2.seq().len() == ps.len(),
    forall|i: int| 0 <= i < ps.len() ==> (#[trigger] it2.seq()[i])@ == ps[i],
    fold(ps, it2.index@, a, ae_step()) == Some((wildcard, entries@)),
    m_ok(entries@),
//@ at loop 1 start
let ghost m = it2.index@;
proof {
    assert(part@ == ps[m]);
    assert(fold(ps, m + 1, a, ae_step()) == ae_step()(fold(ps, m, a, ae_step()), ps[m]));
    if fold(ps, m + 1, a, ae_step()) is None { lemma_fold_none(ps, m + 1, ps.len() as int, a, ae_step()); lemma_fold_none(vs, n + 1, vs.len() as int, z, ae_line()); }
}
//@ end
}
fn main() {}
