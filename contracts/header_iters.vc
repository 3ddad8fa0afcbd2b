//@ # P04: the iterators over a header map list every header once, and every value of each header in order.
use std::borrow::Cow;
use std::collections::{hash_map, HashMap};
//@ include head.inc
//@ include header_types.inc
//@ item src/headers/header_name.rs struct HeaderName #[derive(PartialEq, Eq, Hash, Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ item src/headers/header_value.rs struct HeaderValue
//@ item src/headers/header_values.rs struct HeaderValues
//@ item src/headers/headers.rs struct Headers
//@ item src/headers/values.rs struct Values
//@ item src/headers/iter.rs struct Iter
//@ item src/headers/names.rs struct Names
//@ item src/headers/iter_mut.rs struct IterMut
//@ item-rewrite "hash_map::IterMut<'a, HeaderName, HeaderValues>" => "MapIterMut<'a>"
//@ item src/headers/into_iter.rs struct IntoIter
//@ item-rewrite "hash_map::IntoIter<HeaderName, HeaderValues>" => "MapIntoIter"

pub type Entry = (HeaderName, HeaderValues);
// the entries of a map, in some order: each name once, with its values
pub open spec fn lists(s: Seq<Entry>, m: Map<HeaderName, HeaderValues>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0 == (#[trigger] s[j]).0 ==> i == j
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: HeaderName| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
// TRUSTED: std's map iterators visit every entry exactly once, in an order fixed when the iterator is made.
// (std's owning iterator stands behind a name of its own, as its allocator parameter is unstable)
#[verifier::external_body]
pub struct MapIntoIter { i: hash_map::IntoIter<HeaderName, HeaderValues> }
pub uninterp spec fn left_values(i: hash_map::Values<'_, HeaderName, HeaderValues>) -> Seq<Entry>;
pub uninterp spec fn left_keys(i: hash_map::Keys<'_, HeaderName, HeaderValues>) -> Seq<Entry>;
pub uninterp spec fn left_iter(i: hash_map::Iter<'_, HeaderName, HeaderValues>) -> Seq<Entry>;
pub uninterp spec fn left_into(i: MapIntoIter) -> Seq<Entry>;
#[verifier::external_body]
pub fn map_values<'a>(m: &'a HashMap<HeaderName, HeaderValues>) -> (r: hash_map::Values<'a, HeaderName, HeaderValues>)
    ensures lists(left_values(r), m@) { m.values() }
#[verifier::external_body]
pub fn map_keys<'a>(m: &'a HashMap<HeaderName, HeaderValues>) -> (r: hash_map::Keys<'a, HeaderName, HeaderValues>)
    ensures lists(left_keys(r), m@) { m.keys() }
#[verifier::external_body]
pub fn map_iter<'a>(m: &'a HashMap<HeaderName, HeaderValues>) -> (r: hash_map::Iter<'a, HeaderName, HeaderValues>)
    ensures lists(left_iter(r), m@) { m.iter() }
#[verifier::external_body]
pub fn map_into_iter(m: HashMap<HeaderName, HeaderValues>) -> (r: MapIntoIter)
    ensures lists(left_into(r), m@) { MapIntoIter { i: m.into_iter() } }
#[verifier::external_body]
pub fn values_next<'a>(i: &mut hash_map::Values<'a, HeaderName, HeaderValues>) -> (r: Option<&'a HeaderValues>)
    ensures
        left_values(*old(i)).len() == 0 ==> r is None && left_values(*final(i)).len() == 0,
        left_values(*old(i)).len() > 0 ==> r == Some(&left_values(*old(i))[0].1) && left_values(*final(i)) == left_values(*old(i)).skip(1),
{ i.next() }
#[verifier::external_body]
pub fn values_len(i: &hash_map::Values<'_, HeaderName, HeaderValues>) -> (r: usize) ensures r == left_values(*i).len() { i.len() }
#[verifier::external_body]
pub fn keys_next<'a>(i: &mut hash_map::Keys<'a, HeaderName, HeaderValues>) -> (r: Option<&'a HeaderName>)
    ensures
        left_keys(*old(i)).len() == 0 ==> r is None && left_keys(*final(i)).len() == 0,
        left_keys(*old(i)).len() > 0 ==> r == Some(&left_keys(*old(i))[0].0) && left_keys(*final(i)) == left_keys(*old(i)).skip(1),
{ i.next() }
#[verifier::external_body]
pub fn iter_next<'a>(i: &mut hash_map::Iter<'a, HeaderName, HeaderValues>) -> (r: Option<(&'a HeaderName, &'a HeaderValues)>)
    ensures
        left_iter(*old(i)).len() == 0 ==> r is None && left_iter(*final(i)).len() == 0,
        left_iter(*old(i)).len() > 0 ==> r == Some((&left_iter(*old(i))[0].0, &left_iter(*old(i))[0].1)) && left_iter(*final(i)) == left_iter(*old(i)).skip(1),
{ i.next() }
#[verifier::external_body]
pub fn iter_hint(i: &hash_map::Iter<'_, HeaderName, HeaderValues>) -> (r: (usize, Option<usize>))
    ensures r.0 == left_iter(*i).len(), r.1 == Some(r.0) { i.size_hint() }
#[verifier::external_body]
pub fn into_next(i: &mut MapIntoIter) -> (r: Option<Entry>)
    ensures
        left_into(*old(i)).len() == 0 ==> r is None && left_into(*final(i)).len() == 0,
        left_into(*old(i)).len() > 0 ==> r == Some(left_into(*old(i))[0]) && left_into(*final(i)) == left_into(*old(i)).skip(1),
{ i.i.next() }
#[verifier::external_body]
pub fn into_hint(i: &MapIntoIter) -> (r: (usize, Option<usize>))
    ensures r.0 == left_into(*i).len(), r.1 == Some(r.0) { i.i.size_hint() }
// its mutable iterator lends the values of every entry: what is written there is in the map afterwards
#[verifier::external_body]
pub struct MapIterMut<'a> { i: hash_map::IterMut<'a, HeaderName, HeaderValues> }
pub uninterp spec fn left_mut(i: MapIterMut<'_>) -> Seq<Entry>;
#[verifier::prophetic]
pub uninterp spec fn later(i: MapIterMut<'_>) -> Seq<Entry>;
#[verifier::external_body]
pub fn map_iter_mut<'a>(m: &'a mut HashMap<HeaderName, HeaderValues>) -> (r: MapIterMut<'a>)
    ensures lists(left_mut(r), old(m)@), lists(later(r), final(m)@), same_names(left_mut(r), later(r)) { MapIterMut { i: m.iter_mut() } }
#[verifier::external_body]
pub fn iter_mut_next<'a>(i: &mut MapIterMut<'a>) -> (r: Option<(&'a HeaderName, &'a mut HeaderValues)>)
    ensures
        left_mut(*old(i)).len() == 0 ==> r is None && left_mut(*final(i)).len() == 0,
        left_mut(*old(i)).len() > 0 ==> lends(r, left_mut(*old(i))[0], later(*old(i))[0]) && left_mut(*final(i)) == left_mut(*old(i)).skip(1) && later(*final(i)) == later(*old(i)).skip(1),
{ i.i.next() }
#[verifier::external_body]
pub fn iter_mut_hint(i: &MapIterMut<'_>) -> (r: (usize, Option<usize>))
    ensures r.0 == left_mut(*i).len(), r.1 == Some(r.0) { i.i.size_hint() }
pub open spec fn same_names(a: Seq<Entry>, b: Seq<Entry>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == b[i].0 }
// the entry now, and once it is no longer lent
#[verifier::prophetic]
pub open spec fn lends(r: Option<(&HeaderName, &mut HeaderValues)>, now: Entry, then: Entry) -> bool {
    r is Some && *((r->0).0) == now.0 && *((r->0).1) == now.1 && *final((r->0).1) == then.1
}

// TRUSTED: Option::map_or
#[verifier::external_body]
pub fn opt_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> (r: U)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures o is None ==> r == d, o matches Some(x) ==> f.ensures((x,), r),
{ o.map_or(d, f) }
// --- entries, owned and borrowed, and names
//@ fn src/headers/headers.rs Headers::iter_mut
//@ ret r
ensures lists(left_mut(r.inner), old(self).headers@), lists(later(r.inner), final(self).headers@), same_names(left_mut(r.inner), later(r.inner)),
//@ rewrite "self.headers.iter_mut()" => "map_iter_mut(&mut self.headers)"
//@ end
//@ fn src/headers/headers.rs Headers::iter
//@ ret r
ensures lists(left_iter(r.inner), self.headers@),
//@ rewrite "self.headers.iter()" => "map_iter(&self.headers)"
//@ end
//@ fn src/headers/headers.rs Headers::names
//@ ret r
ensures lists(left_keys(r.inner), self.headers@),
//@ rewrite "self.headers.keys()" => "map_keys(&self.headers)"
//@ end
impl Headers {
//@ fn src/headers/headers.rs <Headers as IntoIterator>::into_iter
//@ bare
//@ ret r
ensures lists(left_into(r.inner), self.headers@),
//@ rewrite "Self::IntoIter" => "IntoIter"
//@ rewrite "self.headers.into_iter()" => "map_into_iter(self.headers)"
//@ end
//@ fn src/headers/headers.rs <&'a Headers as IntoIterator>::into_iter
//@ bare
//@ rename into_iter_ref
//@ ret r
ensures lists(left_iter(r.inner), self.headers@),
//@ rewrite "(self)" => "(&self)"
//@ rewrite "Self::IntoIter" => "Iter<'_>"
//@ end
}
impl Headers {
//@ fn src/headers/headers.rs <&'a mut Headers as IntoIterator>::into_iter
//@ bare
//@ rename into_iter_mut
//@ ret r
ensures lists(left_mut(r.inner), old(self).headers@), lists(later(r.inner), final(self).headers@), same_names(left_mut(r.inner), later(r.inner)),
//@ rewrite "(self)" => "(&mut self)"
//@ rewrite "Self::IntoIter" => "IterMut<'_>"
//@ end
//@ fn src/headers/headers.rs <Headers as AsRef<Headers>>::as_ref
//@ bare
//@ ret r
ensures r == self,
//@ end
//@ fn src/headers/headers.rs <Headers as AsMut<Headers>>::as_mut
//@ bare
//@ ret r
ensures *r == *old(self), *final(r) == *final(self),
//@ end
}
impl<'a> IterMut<'a> {
//@ fn src/headers/iter_mut.rs <IterMut<'a> as Iterator>::next
//@ bare
//@ ret r
ensures
    left_mut(old(self).inner).len() == 0 ==> r is None && left_mut(final(self).inner).len() == 0,
    left_mut(old(self).inner).len() > 0 ==> lends(r, left_mut(old(self).inner)[0], later(old(self).inner)[0]) && left_mut(final(self).inner) == left_mut(old(self).inner).skip(1) && later(final(self).inner) == later(old(self).inner).skip(1),
//@ rewrite "Self::Item" => "(&'a HeaderName, &'a mut HeaderValues)"
//@ rewrite "self.inner.next()" => "iter_mut_next(&mut self.inner)"
//@ end
//@ fn src/headers/iter_mut.rs <IterMut<'a> as Iterator>::size_hint
//@ bare
//@ ret r
ensures r.0 == left_mut(self.inner).len(), r.1 == Some(r.0),
//@ rewrite "self.inner.size_hint()" => "iter_mut_hint(&self.inner)"
//@ end
}
impl<'a> Iter<'a> {
//@ fn src/headers/iter.rs <Iter<'a> as Iterator>::next
//@ bare
//@ ret r
ensures
    left_iter(old(self).inner).len() == 0 ==> r is None && left_iter(final(self).inner).len() == 0,
    left_iter(old(self).inner).len() > 0 ==> r == Some((&left_iter(old(self).inner)[0].0, &left_iter(old(self).inner)[0].1)) && left_iter(final(self).inner) == left_iter(old(self).inner).skip(1),
//@ rewrite "Self::Item" => "(&'a HeaderName, &'a HeaderValues)"
//@ rewrite "self.inner.next()" => "iter_next(&mut self.inner)"
//@ end
//@ fn src/headers/iter.rs <Iter<'a> as Iterator>::size_hint
//@ bare
//@ ret r
ensures r.0 == left_iter(self.inner).len(), r.1 == Some(r.0),
//@ rewrite "self.inner.size_hint()" => "iter_hint(&self.inner)"
//@ end
}
impl IntoIter {
//@ fn src/headers/into_iter.rs <IntoIter as Iterator>::next
//@ bare
//@ ret r
ensures
    left_into(old(self).inner).len() == 0 ==> r is None && left_into(final(self).inner).len() == 0,
    left_into(old(self).inner).len() > 0 ==> r == Some(left_into(old(self).inner)[0]) && left_into(final(self).inner) == left_into(old(self).inner).skip(1),
//@ rewrite "Self::Item" => "(HeaderName, HeaderValues)"
//@ rewrite "self.inner.next()" => "into_next(&mut self.inner)"
//@ end
//@ fn src/headers/into_iter.rs <IntoIter as Iterator>::size_hint
//@ bare
//@ ret r
ensures r.0 == left_into(self.inner).len(), r.1 == Some(r.0),
//@ rewrite "self.inner.size_hint()" => "into_hint(&self.inner)"
//@ end
}
impl<'a> Names<'a> {
//@ fn src/headers/names.rs <Names<'a> as Iterator>::next
//@ bare
//@ ret r
ensures
    left_keys(old(self).inner).len() == 0 ==> r is None && left_keys(final(self).inner).len() == 0,
    left_keys(old(self).inner).len() > 0 ==> r == Some(&left_keys(old(self).inner)[0].0) && left_keys(final(self).inner) == left_keys(old(self).inner).skip(1),
//@ rewrite "Self::Item" => "&'a HeaderName"
//@ rewrite "self.inner.next()" => "keys_next(&mut self.inner)"
//@ end
}

// --- values: those of the name the iterator is at, then those of the names still to come
pub open spec fn flat(s: Seq<Entry>) -> Seq<HeaderValue> decreases s.len() {
    if s.len() == 0 { seq![] } else { s[0].1.inner@ + flat(s.skip(1)) }
}
pub open spec fn slot_rest(v: Values<'_>) -> Seq<HeaderValue> {
    match v.slot { Some(s) => if v.cursor <= s.inner@.len() { s.inner@.skip(v.cursor as int) } else { seq![] }, None => seq![] }
}
pub open spec fn to_come(v: Values<'_>) -> Seq<Entry> { match v.inner { Some(i) => left_values(i), None => seq![] } }
pub open spec fn pending(v: Values<'_>) -> Seq<HeaderValue> { slot_rest(v) + flat(to_come(v)) }
//@ fn src/headers/values.rs Values::new
//@ ret r
ensures pending(r) == flat(left_values(inner)), to_come(r) == left_values(inner),
//@ at tail
assert(seq![] + flat(left_values(inner)) =~= flat(left_values(inner)));
//@ end
//@ fn src/headers/values.rs Values::new_values
//@ ret r
ensures pending(r) == values.inner@, to_come(r).len() == 0,
//@ at tail
assert(values.inner@.skip(0) + flat(seq![]) =~= values.inner@);
//@ end
//@ fn src/headers/headers.rs Headers::values
//@ ret r
ensures lists(to_come(r), self.headers@), pending(r) == flat(to_come(r)),
//@ rewrite "self.headers.values()" => "map_values(&self.headers)"
//@ end
//@ fn src/headers/header_values.rs HeaderValues::iter
//@ ret r
ensures pending(r) == self.inner@, to_come(r).len() == 0,
//@ end
impl HeaderValues {
//@ fn src/headers/header_values.rs <&'a HeaderValues as IntoIterator>::into_iter
//@ bare
//@ ret r
ensures pending(r) == self.inner@, to_come(r).len() == 0,
//@ rewrite "(self)" => "(&self)"
//@ rewrite "Self::IntoIter" => "Values<'_>"
//@ end
}
//@ fn src/headers/header_values.rs HeaderValues::get
//@ ret r
ensures
    index < self.inner@.len() ==> r == Some(&self.inner@[index as int]),
    index >= self.inner@.len() ==> r is None,
//@ end
// TRUSTED: slice::get_mut
#[verifier::external_body]
pub fn vec_get_mut<T>(v: &mut Vec<T>, i: usize) -> (r: Option<&mut T>)
    ensures match r {
        Some(x) => i < old(v)@.len() && *x == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(x)),
        None => i >= old(v)@.len() && final(v)@ == old(v)@,
    },
{ v.get_mut(i) }
//@ fn src/headers/header_values.rs HeaderValues::get_mut
//@ ret r
ensures match r {
    Some(x) => index < old(self).inner@.len() && *x == old(self).inner@[index as int] && final(self).inner@ == old(self).inner@.update(index as int, *final(x)),
    None => index >= old(self).inner@.len() && final(self).inner@ == old(self).inner@,
},
//@ rewrite "self.inner.get_mut(index)" => "vec_get_mut(&mut self.inner, index)"
//@ end
impl<'a> Values<'a> {
//@ fn src/headers/values.rs <Values<'a> as Iterator>::next
//@ bare
//@ ret r
//@ rewrite "Self::Item" => "&'a HeaderValue"
//@ rewrite "inner.next()" => "values_next(inner)"
ensures
    pending(*old(self)).len() == 0 ==> r is None && pending(*final(self)).len() == 0,
    pending(*old(self)).len() > 0 ==> r is Some && *r->0 == pending(*old(self))[0] && pending(*final(self)) == pending(*old(self)).skip(1),
//@ loop 0
    invariant pending(*self) == pending(*old(self)),
    decreases to_come(*self).len(), (if self.slot is Some { 1int } else { 0int }),
//@ at loop 0 start
let ghost v0 = *self;
proof {
    if self.slot is Some {
        assert(self.slot->0.inner.len() <= usize::MAX);
        let s = self.slot->0.inner@;
        let f = flat(to_come(v0));
        if v0.cursor < s.len() { assert((s.skip(v0.cursor as int) + f).skip(1) =~= s.skip(v0.cursor + 1) + f); }
        else { assert(slot_rest(v0) =~= seq![]); assert(seq![] + f =~= f); }
    } else {
        let l = to_come(v0);
        if l.len() > 0 { assert(seq![] + flat(l) =~= l[0].1.inner@.skip(0) + flat(l.skip(1))); }
        else { assert(pending(v0) =~= seq![]); }
    }
}
//@ end
//@ fn src/headers/values.rs <Values<'a> as Iterator>::size_hint
//@ bare
//@ ret r
//@ rewrite "self\n            .slot\n            .map_or(" => "opt_map_or(self.slot, "
//@ rewrite "inner.len() > 0" => "values_len(inner) > 0"
ensures
    r.0 <= pending(*self).len(),
    r.1 matches Some(n) ==> pending(*self).len() <= n,
//@ closure 0 types="&'a HeaderValues" ret="y: usize"
ensures y == (if s.inner@.len() >= self.cursor { s.inner@.len() - self.cursor } else { 0 }),
//@ end
}
}
fn main() {}
