// TRUSTED: std's iterators over a Vec and a slice yield its elements in order, each once; the mutable one
// lends each element, and what is written there is in the Vec afterwards.
// (they stand behind names of their own: the owning one's allocator parameter is unstable)
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct VecIntoIter<T> { i: std::vec::IntoIter<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct SliceIter<'a, T> { i: std::slice::Iter<'a, T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct SliceIterMut<'a, T> { i: std::slice::IterMut<'a, T> }
impl<T> VecIntoIter<T> {
    pub uninterp spec fn left(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn of(v: Vec<T>) -> (r: Self) ensures r.left() == v@ { VecIntoIter { i: v.into_iter() } }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self).left().len() == 0 ==> r is None && final(self).left().len() == 0,
            old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().skip(1),
    { self.i.next() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == self.left().len(), r.1 == Some(r.0) { self.i.size_hint() }
}
impl<'a, T> SliceIter<'a, T> {
    pub uninterp spec fn left(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn of(v: &'a Vec<T>) -> (r: Self) ensures r.left() == v@ { SliceIter { i: v.iter() } }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            old(self).left().len() == 0 ==> r is None && final(self).left().len() == 0,
            old(self).left().len() > 0 ==> r == Some(&old(self).left()[0]) && final(self).left() == old(self).left().skip(1),
    { self.i.next() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == self.left().len(), r.1 == Some(r.0) { self.i.size_hint() }
}
impl<'a, T> SliceIterMut<'a, T> {
    pub uninterp spec fn left(&self) -> Seq<T>;
    // what the elements left will be once they are no longer lent
    #[verifier::prophetic]
    pub uninterp spec fn later(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn of(v: &'a mut Vec<T>) -> (r: Self) ensures r.left() == old(v)@, r.later() == final(v)@, final(v)@.len() == old(v)@.len() { SliceIterMut { i: v.iter_mut() } }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a mut T>)
        ensures
            old(self).left().len() == 0 ==> r is None && final(self).left().len() == 0,
            old(self).left().len() > 0 ==> r is Some && *(r->0) == old(self).left()[0] && final(self).left() == old(self).left().skip(1)
                && *final(r->0) == old(self).later()[0] && final(self).later() == old(self).later().skip(1),
    { self.i.next() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == self.left().len(), r.1 == Some(r.0) { self.i.size_hint() }
}
