// Stand-ins for serde's traits. TRUSTED: a Serializer is handed a number or a text and answers with
// a result of its own; a Deserializer holds a number or a text and shows it, whichever entry point is
// asked for, to the visitor's method for it (the forwarding defaults included), whose result it gives.
pub enum Unexpected<'a> { Str(&'a str), Unsigned(u64), Signed(i64) }
pub trait DeError: Sized { fn invalid_value<X>(unexp: Unexpected<'_>, exp: &X) -> Self; }
pub enum Held { Int(int), Text(Seq<char>), Other }
pub open spec fn okv<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
pub trait Serializer: Sized {
    type Ok;
    type Error;
    spec fn wrote(self, h: Held, r: Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_u16(self, v: u16) -> (r: Result<Self::Ok, Self::Error>) ensures self.wrote(Held::Int(v as int), r);
    fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>) ensures self.wrote(Held::Text(v@), r);
}
pub trait VisitorValue: Sized {
    type Value;
    // what reading this number or text gives
    spec fn reads(h: Held, r: Option<Self::Value>) -> bool;
}
pub trait Deserializer<'de>: Sized {
    type Error;
    spec fn held(self) -> Held;
    fn deserialize_any<V: VisitorValue>(self, v: V) -> (r: Result<V::Value, Self::Error>) ensures V::reads(self.held(), okv(r));
    fn deserialize_str<V: VisitorValue>(self, v: V) -> (r: Result<V::Value, Self::Error>) ensures V::reads(self.held(), okv(r));
}
