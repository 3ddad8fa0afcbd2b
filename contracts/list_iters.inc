pub mod {{MOD}} {
use super::*;
//@ item {{FILE}} struct {{T}}
//@ item {{FILE}} struct IntoIter
//@ item-rewrite "std::vec::IntoIter<" => "VecIntoIter<"
//@ item {{FILE}} struct Iter
//@ item-rewrite "slice::Iter<" => "SliceIter<"
//@ item {{FILE}} struct IterMut
//@ item-rewrite "slice::IterMut<" => "SliceIterMut<"
//@ fn {{FILE}} {{T}}::iter
//@ ret r
ensures r.inner.left() == self.{{F}}@,
//@ rewrite "self.{{F}}.iter()" => "SliceIter::of(&self.{{F}})"
//@ end
//@ fn {{FILE}} {{T}}::iter_mut
//@ ret r
ensures r.inner.left() == old(self).{{F}}@, r.inner.later() == final(self).{{F}}@, final(self).{{F}}@.len() == old(self).{{F}}@.len(), ({{T}} { {{F}}: old(self).{{F}}, ..*final(self) }) == *old(self),
//@ rewrite "self.{{F}}.iter_mut()" => "SliceIterMut::of(&mut self.{{F}})"
//@ end
impl {{T}} {
//@ fn {{FILE}} <{{T}} as IntoIterator>::into_iter
//@ bare
//@ ret r
ensures r.inner.left() == self.{{F}}@,
//@ rewrite "Self::IntoIter" => "IntoIter"
//@ rewrite "self.{{F}}.into_iter()" => "VecIntoIter::of(self.{{F}})"
//@ end
//@ fn {{FILE}} <&'a {{T}} as IntoIterator>::into_iter
//@ bare
//@ rename into_iter_ref
//@ ret r
ensures r.inner.left() == self.{{F}}@,
//@ rewrite "(self)" => "(&self)"
//@ rewrite "Self::IntoIter" => "Iter<'_>"
//@ end
//@ fn {{FILE}} <&'a mut {{T}} as IntoIterator>::into_iter
//@ bare
//@ rename into_iter_mut
//@ ret r
ensures r.inner.left() == old(self).{{F}}@, r.inner.later() == final(self).{{F}}@, final(self).{{F}}@.len() == old(self).{{F}}@.len(), ({{T}} { {{F}}: old(self).{{F}}, ..*final(self) }) == *old(self),
//@ rewrite "(self)" => "(&mut self)"
//@ rewrite "Self::IntoIter" => "IterMut<'_>"
//@ end
}
impl IntoIter {
//@ fn {{FILE}} <IntoIter as Iterator>::next
//@ bare
//@ ret r
ensures
    old(self).inner.left().len() == 0 ==> r is None && final(self).inner.left().len() == 0,
    old(self).inner.left().len() > 0 ==> r == Some(old(self).inner.left()[0]) && final(self).inner.left() == old(self).inner.left().skip(1),
//@ rewrite "Self::Item" => "{{E}}"
//@ end
//@ fn {{FILE}} <IntoIter as Iterator>::size_hint
//@ bare
//@ ret r
ensures r.0 == self.inner.left().len(), r.1 == Some(r.0),
//@ end
}
impl<'a> Iter<'a> {
//@ fn {{FILE}} <Iter<'a> as Iterator>::next
//@ bare
//@ ret r
ensures
    old(self).inner.left().len() == 0 ==> r is None && final(self).inner.left().len() == 0,
    old(self).inner.left().len() > 0 ==> r == Some(&old(self).inner.left()[0]) && final(self).inner.left() == old(self).inner.left().skip(1),
//@ rewrite "Self::Item" => "&'a {{E}}"
//@ end
//@ fn {{FILE}} <Iter<'a> as Iterator>::size_hint
//@ bare
//@ ret r
ensures r.0 == self.inner.left().len(), r.1 == Some(r.0),
//@ end
}
impl<'a> IterMut<'a> {
//@ fn {{FILE}} <IterMut<'a> as Iterator>::next
//@ bare
//@ ret r
ensures
    old(self).inner.left().len() == 0 ==> r is None && final(self).inner.left().len() == 0,
    old(self).inner.left().len() > 0 ==> r is Some && *(r->0) == old(self).inner.left()[0] && final(self).inner.left() == old(self).inner.left().skip(1)
        && *final(r->0) == old(self).inner.later()[0] && final(self).inner.later() == old(self).inner.later().skip(1),
//@ rewrite "Self::Item" => "&'a mut {{E}}"
//@ end
//@ fn {{FILE}} <IterMut<'a> as Iterator>::size_hint
//@ bare
//@ ret r
ensures r.0 == self.inner.left().len(), r.1 == Some(r.0),
//@ end
}
}
