//@ # P21: typed extensions.
use vstd::prelude::*;
verus! {
// TRUSTED stand-ins for std::any and the HashMap: a type's id (types with equal ids are the same type),
// a boxed value of any type that gives its value back to whoever asks for the right type only, and a map
// from ids to such boxes.
#[verifier::external_body]
pub struct TypeId { x: u64 }
pub uninterp spec fn id_of<T>() -> TypeId;
pub uninterp spec fn any_of<T>(x: T) -> AnyBox;
impl TypeId {
    #[verifier::external_body]
    pub fn of<T: 'static>() -> (r: TypeId) ensures r == id_of::<T>() { unimplemented!() }
}
#[verifier::external_body]
pub struct AnyBox { x: u8 }
impl AnyBox {
    pub uninterp spec fn id(&self) -> TypeId;
    // the value, for its own type
    pub uninterp spec fn value<T>(&self) -> T;
    #[verifier::external_body]
    pub fn new<T: 'static>(x: T) -> (r: AnyBox) ensures r.id() == id_of::<T>(), r.value::<T>() == x { unimplemented!() }
    // (boxed as Box<dyn Any>).downcast().ok().map(|boxed| *boxed)
    #[verifier::external_body]
    pub fn vx_take<T: 'static>(self) -> (r: Option<T>) ensures r == (if self.id() == id_of::<T>() { Some(self.value::<T>()) } else { None }) { unimplemented!() }
    // (&**boxed as &dyn Any).downcast_ref()
    #[verifier::external_body]
    pub fn vx_ref<T: 'static>(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.id() == id_of::<T>() && *x == self.value::<T>(), None => self.id() != id_of::<T>() } { unimplemented!() }
    // (&mut **boxed as &mut dyn Any).downcast_mut()
    #[verifier::external_body]
    pub fn vx_mut<T: 'static>(&mut self) -> (r: Option<&mut T>)
        ensures match r {
            Some(x) => old(self).id() == id_of::<T>() && *x == old(self).value::<T>() && final(self).id() == old(self).id() && final(self).value::<T>() == *final(x),
            None => old(self).id() != id_of::<T>() && *final(self) == *old(self),
        } { unimplemented!() }
}
#[verifier::external_body]
pub struct AnyMap { x: u8 }
impl AnyMap {
    pub uninterp spec fn view(&self) -> Map<TypeId, AnyBox>;
    #[verifier::external_body]
    pub fn new() -> (r: AnyMap) ensures r@ == Map::<TypeId, AnyBox>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: TypeId, v: AnyBox) -> (r: Option<AnyBox>)
        ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &TypeId) -> (r: Option<AnyBox>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &TypeId) -> (r: Option<&AnyBox>)
        ensures match r { Some(x) => self@.dom().contains(*k) && self@[*k] == *x, None => !self@.dom().contains(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &TypeId) -> (r: Option<&mut AnyBox>)
        ensures match r {
            Some(x) => old(self)@.dom().contains(*k) && old(self)@[*k] == *x && final(self)@ == old(self)@.insert(*k, *final(x)),
            None => !old(self)@.dom().contains(*k) && *final(self) == *old(self),
        } { unimplemented!() }
}
// Option::get_or_insert_with(Default::default)
#[verifier::external_body]
pub fn map_of(o: &mut Option<AnyMap>) -> (r: &mut AnyMap)
    ensures *r == (match *old(o) { Some(m) => m, None => *r }), *old(o) is None ==> r@ == Map::<TypeId, AnyBox>::empty(), *final(o) == Some(*final(r)),
{ unimplemented!() }
//@ item src/extensions.rs struct Extensions
//@ item-rewrite "HashMap<TypeId, Box<dyn Any + Send + Sync>, BuildHasherDefault<IdHasher>>" => "AnyMap"
//@ item src/extensions.rs struct IdHasher
impl Extensions {
    // the boxes, by type
    pub open spec fn boxes(&self) -> Map<TypeId, AnyBox> { match self.map { Some(m) => m@, None => Map::empty() } }
    // every box is stored under its own type
    pub open spec fn ok(&self) -> bool { forall|k: TypeId| #[trigger] self.boxes().dom().contains(k) ==> self.boxes()[k].id() == k }
    // the value of a type
    pub open spec fn held<T>(&self) -> Option<T> { if self.boxes().dom().contains(id_of::<T>()) { Some(self.boxes()[id_of::<T>()].value::<T>()) } else { None } }
    // values of every type but this one are as they were
    pub open spec fn others<T>(&self, old: &Extensions) -> bool { self.boxes().remove(id_of::<T>()) =~= old.boxes().remove(id_of::<T>()) }
}
//@ fn src/extensions.rs Extensions::new
//@ ret r
ensures r.ok(), r.boxes() == Map::<TypeId, AnyBox>::empty(),
//@ end
//@ fn src/extensions.rs Extensions::insert
//@ ret r
requires old(self).ok(),
ensures final(self).ok(), r == old(self).held::<T>(), final(self).held::<T>() == Some(val), final(self).others::<T>(old(self)),
//@ rewrite "self.map\n            .get_or_insert_with(Default::default)" => "map_of(&mut self.map)"
//@ rewrite "Box::new(val)" => "AnyBox::new(val)"
//@ rewrite "(boxed as Box<dyn Any>).downcast().ok().map(|boxed| *boxed)" => "boxed.vx_take()"
//@ closure 0 types="AnyBox" ret="x: Option<T>"
ensures x == (if boxed.id() == id_of::<T>() { Some(boxed.value::<T>()) } else { None }),
//@ end
//@ fn src/extensions.rs Extensions::contains
//@ ret r
ensures r == self.held::<T>() is Some,
//@ closure 0 types="&AnyMap" ret="x: Option<&AnyBox>"
ensures match x { Some(b) => m@.dom().contains(id_of::<T>()) && m@[id_of::<T>()] == *b, None => !m@.dom().contains(id_of::<T>()) },
//@ end
//@ fn src/extensions.rs Extensions::get
//@ ret r
requires self.ok(),
ensures match r { Some(x) => self.held::<T>() == Some(*x), None => self.held::<T>() is None },
//@ rewrite "(&**boxed as &(dyn Any)).downcast_ref()" => "boxed.vx_ref()"
//@ closure 0 types="&AnyMap" ret="x: Option<&AnyBox>"
ensures match x { Some(b) => m@.dom().contains(id_of::<T>()) && m@[id_of::<T>()] == *b, None => !m@.dom().contains(id_of::<T>()) },
//@ closure 1 types="&AnyBox" ret="x: Option<&T>"
ensures match x { Some(v) => boxed.id() == id_of::<T>() && *v == boxed.value::<T>(), None => boxed.id() != id_of::<T>() },
//@ end
//@ fn src/extensions.rs Extensions::remove
//@ ret r
requires old(self).ok(),
ensures final(self).ok(), r == old(self).held::<T>(), final(self).held::<T>() is None, final(self).others::<T>(old(self)),
//@ rewrite "(boxed as Box<dyn Any>).downcast().ok().map(|boxed| *boxed)" => "boxed.vx_take()"
//@ rewrite "self.map\n            .as_mut()\n            .and_then(|m| m.remove(&TypeId::of::<T>()))" => "vx_remove(&mut self.map, &TypeId::of::<T>())"
//@ closure 1 types="AnyBox" ret="x: Option<T>"
ensures x == (if boxed.id() == id_of::<T>() { Some(boxed.value::<T>()) } else { None }),
//@ end
// Option::as_mut().and_then(|m| m.remove(k))
pub fn vx_remove(o: &mut Option<AnyMap>, k: &TypeId) -> (r: Option<AnyBox>)
    ensures match *old(o) {
        Some(m) => *final(o) is Some && (*final(o))->0@ == m@.remove(*k) && r == (if m@.dom().contains(*k) { Some(m@[*k]) } else { None }),
        None => *final(o) is None && r is None,
    },
{ match o { Some(m) => m.remove(k), None => None } }
// Option::as_mut().and_then(|m| m.get_mut(k)).and_then(|boxed| (&mut **boxed as &mut dyn Any).downcast_mut())
#[verifier::external_body]
pub fn vx_get_mut<'a>(o: &'a mut Option<AnyMap>, k: &TypeId) -> (r: Option<&'a mut AnyBox>)
    ensures match r {
        Some(x) => *old(o) is Some && (*old(o))->0@.dom().contains(*k) && *x == (*old(o))->0@[*k] && *final(o) is Some && (*final(o))->0@ == (*old(o))->0@.insert(*k, *final(x)),
        None => (*old(o) matches Some(m) ==> !m@.dom().contains(*k)) && *final(o) == *old(o),
    },
{ unimplemented!() }
//@ fn src/extensions.rs Extensions::get_mut
//@ ret r
requires old(self).ok(),
ensures
    final(self).ok(), final(self).others::<T>(old(self)),
    match r {
        Some(x) => old(self).held::<T>() == Some(*x) && final(self).held::<T>() == Some(*final(x)),
        None => old(self).held::<T>() is None && final(self).held::<T>() is None,
    },
//@ rewrite "(&mut **boxed as &mut (dyn Any)).downcast_mut()" => "boxed.vx_mut()"
//@ rewrite "self.map\n            .as_mut()\n            .and_then(|m| m.get_mut(&TypeId::of::<T>()))" => "vx_get_mut(&mut self.map, &TypeId::of::<T>())"
//@ closure 1 types="&mut AnyBox" ret="x: Option<&mut T>"
ensures match x {
    Some(v) => old(boxed).id() == id_of::<T>() && *v == old(boxed).value::<T>() && final(boxed).id() == old(boxed).id() && final(boxed).value::<T>() == *final(v),
    None => old(boxed).id() != id_of::<T>() && *final(boxed) == *old(boxed),
},
//@ end
//@ fn src/extensions.rs Extensions::clear
ensures final(self).ok(), final(self).boxes() == Map::<TypeId, AnyBox>::empty(),
//@ end
impl IdHasher {
//@ fn src/extensions.rs <IdHasher as Hasher>::write_u64
//@ bare
ensures final(self).0 == id,
//@ end
//@ fn src/extensions.rs <IdHasher as Hasher>::finish
//@ bare
//@ ret r
ensures r == self.0,
//@ end
}
}
fn main() {}
