//@ item {{DIR}}/encoding.rs enum Encoding #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item {{DIR}}/encoding_proposal.rs struct EncodingProposal #[derive(Clone, Copy)]
//@ item {{DIR}}/{{CEFILE}} struct {{CE}}
//@ item {{DIR}}/{{AEFILE}} struct {{AE}}
impl EncodingProposal { pub open spec fn w(&self) -> Option<f32> { self.weight } }
pub open spec fn e_ok(v: Seq<EncodingProposal>) -> bool { forall|i: int| 0 <= i < v.len() ==> wok((#[trigger] v[i]).weight) }
pub enum Element { Bad, Skip, Entry(EncodingProposal) }
pub open spec fn element(s: Seq<char>) -> Element {
    let ps = splits(s, ';');
    match coding(trim(ps[0])) {
        None => Element::Skip,
        Some(e) => if ps.len() == 1 { Element::Entry(EncodingProposal { encoding: e, weight: None }) } else {
            match weight_of(ps[1]) {
                None => Element::Bad,
                Some(w) => if unit(w) { Element::Entry(EncodingProposal { encoding: e, weight: Some(w) }) } else { Element::Bad },
            }
        },
    }
}
pub open spec fn ae_step() -> spec_fn(Option<(bool, Seq<EncodingProposal>)>, Seq<char>) -> Option<(bool, Seq<EncodingProposal>)> {
    |acc: Option<(bool, Seq<EncodingProposal>)>, s: Seq<char>| match acc {
        None => None,
        Some(x) => { let t = trim(s);
            if t.len() == 0 { acc } else if t == "*"@ { Some((true, x.1)) }
            else { match element(t) { Element::Bad => None, Element::Skip => acc, Element::Entry(e) => Some((x.0, x.1.push(e))) } } },
    }
}
pub open spec fn ae_line() -> spec_fn(Option<(bool, Seq<EncodingProposal>)>, Seq<char>) -> Option<(bool, Seq<EncodingProposal>)> {
    |acc: Option<(bool, Seq<EncodingProposal>)>, v: Seq<char>| { let ps = splits(trim(v), ','); fold(ps, ps.len() as int, acc, ae_step()) }
}
pub open spec fn accepted(vs: Seq<Seq<char>>) -> Option<(bool, Seq<EncodingProposal>)> { fold(vs, vs.len() as int, Some((false, seq![])), ae_line()) }
pub proof fn lemma_ae_strict() ensures strict(ae_step()), strict(ae_line())
{
    assert forall|v: Seq<char>| #[trigger] ae_line()(None, v) is None by { let ps = splits(trim(v), ','); lemma_fold_none(ps, 0, ps.len() as int, None, ae_step()); }
}
