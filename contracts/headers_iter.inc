// The iterators over a header map (contracts discharged in unit header_iters): each is told by the map it is over.
#[verifier::external_body]
pub struct Iter<'a> { x: &'a u8 }
#[verifier::external_body]
pub struct IterMut<'a> { x: &'a mut u8 }
#[verifier::external_body]
pub struct Names<'a> { x: &'a u8 }
#[verifier::external_body]
pub struct Values<'a> { x: &'a u8 }
#[verifier::external_body]
pub struct IntoIter { x: u8 }
impl<'a> Iter<'a> { pub uninterp spec fn over(&self) -> Headers; }
impl<'a> IterMut<'a> { pub uninterp spec fn over(&self) -> Headers; #[verifier::prophetic] pub uninterp spec fn later(&self) -> Headers; }
impl<'a> Names<'a> { pub uninterp spec fn over(&self) -> Headers; }
impl<'a> Values<'a> { pub uninterp spec fn over(&self) -> Headers; }
impl IntoIter { pub uninterp spec fn over(&self) -> Headers; }
impl Headers {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Iter<'_>) ensures r.over() == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_mut(&mut self) -> (r: IterMut<'_>) ensures r.over() == *old(self), r.later() == *final(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn names(&self) -> (r: Names<'_>) ensures r.over() == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: Values<'_>) ensures r.over() == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: IntoIter) ensures r.over() == self { unimplemented!() }
}
