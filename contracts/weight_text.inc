// TRUSTED: what `{:.3}` writes for a float in 0.0..=1.0, and that it parses to such a float: the weight
// rounded to three decimals.
pub uninterp spec fn wtext(w: f32) -> Seq<char>;
pub uninterp spec fn rounded(w: f32) -> f32;
pub axiom fn axiom_wtext(w: f32)
    requires unit(w),
    ensures
        tight(wtext(w)), ascii_chars(wtext(w)), first(wtext(w), is_char(',')) == wtext(w).len(), first(wtext(w), is_char(';')) == wtext(w).len(),
        float_of(wtext(w)) == Some(rounded(w)), unit(rounded(w));
pub trait SinkWeight { fn vx_show__3(&mut self, x: &f32); }
impl SinkWeight for String {
    #[verifier::external_body]
    fn vx_show__3(&mut self, x: &f32) ensures final(self)@ == old(self)@ + wtext(*x) { unimplemented!() }
}
