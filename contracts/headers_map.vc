//@ # P04: a header map is a multimap from lower-cased names to ordered lists of values.
use std::borrow::Cow;
use std::collections::{hash_map, HashMap};
//@ include head.inc
//@ include header_types.inc
//@ item src/headers/header_name.rs struct HeaderName #[derive(PartialEq, Eq, Hash, Clone)] #[verifier::allow(autoderive_clone_without_spec)]
//@ item src/headers/header_value.rs struct HeaderValue
//@ item src/headers/header_values.rs struct HeaderValues
//@ item src/headers/headers.rs struct Headers

// TRUSTED: HeaderName's derived Hash and Eq agree (std's requirement on keys).
pub axiom fn axiom_name_key()
    ensures vstd::std_specs::hash::obeys_key_model::<HeaderName>();
#[verifier::external_body]
pub fn map_get_mut<'a>(m: &'a mut HashMap<HeaderName, HeaderValues>, k: &HeaderName) -> (r: Option<&'a mut HeaderValues>)
    ensures
        !old(m)@.contains_key(*k) ==> r is None && final(m)@ == old(m)@,
        old(m)@.contains_key(*k) ==> r is Some,
        r matches Some(v) ==> *v == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(v)),
{ unimplemented!() }

// What a call argument denotes: a name and a list of values, or an error.
pub trait ToHeaderValues: Sized {
    type Iter: Iterator<Item = HeaderValue>;
    spec fn denoted(&self) -> Option<Seq<HeaderValue>>;
    fn to_header_values(&self) -> (r: Result<Self::Iter, Error>)
        ensures
            r is Ok <==> self.denoted() is Some,
            r matches Ok(it) ==> yields(it) == self.denoted()->0;
}
pub uninterp spec fn yields<I>(it: I) -> Seq<HeaderValue>;
#[verifier::external_body]
pub fn collect_values<I: Iterator<Item = HeaderValue>>(it: I) -> (r: HeaderValues)
    ensures r.inner@ == yields(it)
{ unimplemented!() }

// TRUSTED: From<&HeaderName> for HeaderName clones.
#[verifier::external_body]
pub fn clone_name(n: &HeaderName) -> (r: HeaderName) ensures r == *n { unimplemented!() }

//@ fn src/headers/header_values.rs HeaderValues::append
ensures
    final(self).inner@ == old(self).inner@ + old(other).inner@,
    final(other).inner@.len() == 0,
//@ end
//@ fn src/headers/header_values.rs HeaderValues::get
//@ ret r
ensures
    index < self.inner@.len() ==> r == Some(&self.inner@[index as int]),
    index >= self.inner@.len() ==> r is None,
//@ end
//@ fn src/headers/header_values.rs HeaderValues::last
//@ ret r
requires self.inner@.len() > 0,
ensures *r == self.inner@.last(),
//@ end

impl Headers {
    pub open spec fn view(&self) -> Map<HeaderName, HeaderValues> { self.headers@ }
}
//@ fn src/headers/headers.rs Headers::new
//@ ret r
ensures r@ == Map::<HeaderName, HeaderValues>::empty(),
//@ end
//@ fn src/headers/headers.rs Headers::insert
//@ ret r
//@ rewrite "fn insert(" => "fn insert<V: ToHeaderValues>("
//@ rewrite "name: impl Into<HeaderName>," => "name: HeaderName,"
//@ rewrite "values: impl ToHeaderValues," => "values: V,"
//@ rewrite "values.to_header_values()?.collect()" => "collect_values(values.to_header_values()?)"
ensures
    values.denoted() is None ==> r is Err && final(self)@ == old(self)@,
    values.denoted() matches Some(vs) ==> {
        &&& r is Ok
        &&& r->Ok_0 == (if old(self)@.contains_key(name) { Some(old(self)@[name]) } else { None })
        &&& final(self)@.dom() == old(self)@.dom().insert(name)
        &&& final(self)@[name].inner@ == vs
        &&& forall|k: HeaderName| k != name && #[trigger] old(self)@.contains_key(k) ==> final(self)@[k] == old(self)@[k]
    },
//@ at start
proof { axiom_name_key(); }
//@ end
//@ fn src/headers/headers.rs Headers::get
//@ ret r
//@ rewrite "name: impl Into<HeaderName>" => "name: HeaderName"
ensures r == (if self@.contains_key(name) { Some(&self@[name]) } else { None }),
//@ at start
proof { axiom_name_key(); }
//@ end
impl Headers {
//@ fn src/headers/headers.rs <Headers as Index<HeaderName>>::index
//@ bare
//@ ret r
requires self@.contains_key(name),
ensures *r == self@[name],
//@ end
}
//@ fn src/headers/headers.rs Headers::get_mut
//@ ret r
//@ rewrite "name: impl Into<HeaderName>" => "name: HeaderName"
//@ rewrite "self.headers.get_mut(&name.into())" => "map_get_mut(&mut self.headers, &name.into())"
ensures
    !old(self)@.contains_key(name) ==> r is None && final(self)@ == old(self)@,
    old(self)@.contains_key(name) ==> r is Some,
    r matches Some(v) ==> *v == old(self)@[name] && final(self)@ == old(self)@.insert(name, *final(v)),
//@ end
//@ fn src/headers/headers.rs Headers::append
//@ ret r
//@ rewrite "fn append(" => "fn append<V: ToHeaderValues>("
//@ rewrite "name: impl Into<HeaderName>," => "name: HeaderName,"
//@ rewrite "values: impl ToHeaderValues," => "values: V,"
//@ rewrite "self.get_mut(&name)" => "self.get_mut(clone_name(&name))"
//@ rewrite "let name = name.into();" => "let name: HeaderName = name.into();"
//@ rewrite "values.to_header_values()?.collect()" => "collect_values(values.to_header_values()?)"
ensures
    values.denoted() is None ==> r is Err && final(self)@ == old(self)@,
    values.denoted() matches Some(vs) ==> {
        &&& r is Ok
        &&& final(self)@.dom() == old(self)@.dom().insert(name)
        &&& final(self)@[name].inner@ == (if old(self)@.contains_key(name) { old(self)@[name].inner@ + vs } else { vs })
        &&& forall|k: HeaderName| k != name && #[trigger] old(self)@.contains_key(k) ==> final(self)@[k] == old(self)@[k]
    },
//@ end
//@ fn src/headers/headers.rs Headers::remove
//@ ret r
//@ rewrite "name: impl Into<HeaderName>" => "name: HeaderName"
ensures
    final(self)@ == old(self)@.remove(name),
    r == (if old(self)@.contains_key(name) { Some(old(self)@[name]) } else { None }),
//@ at start
proof { axiom_name_key(); }
//@ end
}
fn main() {}
