// TRUSTED: std's iterators over a HashSet visit every element exactly once, in an order fixed when the iterator
// is made. (they stand behind names of their own: their allocator parameters are unstable)
pub uninterp spec fn elems(s: std::collections::HashSet<Method>) -> Set<Method>;
pub open spec fn lists(l: Seq<Method>, s: Set<Method>) -> bool { l.no_duplicates() && l.to_set() == s }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SetIntoIter<T> { i: std::collections::hash_set::IntoIter<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SetIter<'a, T> { i: std::collections::hash_set::Iter<'a, T> }
impl SetIntoIter<Method> {
    pub uninterp spec fn left(&self) -> Seq<Method>;
    #[verifier::external_body]
    pub fn of(v: std::collections::HashSet<Method>) -> (r: Self) ensures lists(r.left(), elems(v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Method>)
        ensures
            old(self).left().len() == 0 ==> r is None && final(self).left().len() == 0,
            old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == self.left().len(), r.1 == Some(r.0) { unimplemented!() }
}
impl<'a> SetIter<'a, Method> {
    pub uninterp spec fn left(&self) -> Seq<Method>;
    #[verifier::external_body]
    pub fn of(v: &'a std::collections::HashSet<Method>) -> (r: Self) ensures lists(r.left(), elems(*v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a Method>)
        ensures
            old(self).left().len() == 0 ==> r is None && final(self).left().len() == 0,
            old(self).left().len() > 0 ==> r == Some(&old(self).left()[0]) && final(self).left() == old(self).left().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == self.left().len(), r.1 == Some(r.0) { unimplemented!() }
}
pub mod allow {
use super::*;
use std::collections::HashSet;
//@ item src/server/allow.rs struct Allow
//@ item src/server/allow.rs struct IntoIter
//@ item-rewrite "hash_set::IntoIter<" => "SetIntoIter<"
//@ item src/server/allow.rs struct Iter
//@ item-rewrite "hash_set::Iter<" => "SetIter<"
//@ fn src/server/allow.rs Allow::iter
//@ ret r
ensures lists(r.inner.left(), elems(self.entries)),
//@ rewrite "self.entries.iter()" => "SetIter::of(&self.entries)"
//@ end
impl Allow {
//@ fn src/server/allow.rs <Allow as IntoIterator>::into_iter
//@ bare
//@ ret r
ensures lists(r.inner.left(), elems(self.entries)),
//@ rewrite "Self::IntoIter" => "IntoIter"
//@ rewrite "self.entries.into_iter()" => "SetIntoIter::of(self.entries)"
//@ end
//@ fn src/server/allow.rs <&'a Allow as IntoIterator>::into_iter
//@ bare
//@ rename into_iter_ref
//@ ret r
ensures lists(r.inner.left(), elems(self.entries)),
//@ rewrite "(self)" => "(&self)"
//@ rewrite "Self::IntoIter" => "Iter<'_>"
//@ end
}
impl IntoIter {
//@ fn src/server/allow.rs <IntoIter as Iterator>::next
//@ bare
//@ ret r
ensures
    old(self).inner.left().len() == 0 ==> r is None && final(self).inner.left().len() == 0,
    old(self).inner.left().len() > 0 ==> r == Some(old(self).inner.left()[0]) && final(self).inner.left() == old(self).inner.left().skip(1),
//@ rewrite "Self::Item" => "Method"
//@ end
//@ fn src/server/allow.rs <IntoIter as Iterator>::size_hint
//@ bare
//@ ret r
ensures r.0 == self.inner.left().len(), r.1 == Some(r.0),
//@ end
}
impl<'a> Iter<'a> {
//@ fn src/server/allow.rs <Iter<'a> as Iterator>::next
//@ bare
//@ ret r
ensures
    old(self).inner.left().len() == 0 ==> r is None && final(self).inner.left().len() == 0,
    old(self).inner.left().len() > 0 ==> r == Some(&old(self).inner.left()[0]) && final(self).inner.left() == old(self).inner.left().skip(1),
//@ rewrite "Self::Item" => "&'a Method"
//@ end
//@ fn src/server/allow.rs <Iter<'a> as Iterator>::size_hint
//@ bare
//@ ret r
ensures r.0 == self.inner.left().len(), r.1 == Some(r.0),
//@ end
}
}
