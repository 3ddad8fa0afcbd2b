use crate::core::*;
use crate::{ck, eqv};
use http_types::{Method, Request, Response, Url};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Debug, Clone, PartialEq)]
struct A(u64);
#[derive(Debug, Clone, PartialEq)]
struct B(u64);
/// A type parameter makes different types of one definition.
#[derive(Debug, Clone, PartialEq)]
struct G<T>(u64, std::marker::PhantomData<T>);
/// Types that print alike (local types of one function, function pointers apart in a lifetime) are still different types.
trait Alike<const N: usize> {
    type T: Send + Sync + 'static;
    fn make(v: u64) -> Self::T;
    fn num(v: &Self::T) -> u64;
}
#[allow(dead_code)]
fn alike() {
    {
        struct L(u64);
        impl Alike<0> for () {
            type T = L;
            fn make(v: u64) -> L { L(v) }
            fn num(v: &L) -> u64 { v.0 }
        }
    }
    {
        struct L(u64);
        impl Alike<1> for () {
            type T = L;
            fn make(v: u64) -> L { L(v) }
            fn num(v: &L) -> u64 { v.0 }
        }
    }
}
type L0 = <() as Alike<0>>::T;
type L1 = <() as Alike<1>>::T;
type F0 = G<for<'a> fn(&'a u8)>;
type F1 = G<fn(&'static u8)>;
/// Dropped exactly once, when it leaves the map.
struct Counted(u64, Arc<std::sync::atomic::AtomicI64>);
impl Drop for Counted {
    fn drop(&mut self) {
        self.1.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}

macro_rules! on_type {
    ($s:expr, $x:expr, $m:expr, $k:expr, $t:ty, $make:expr, $num:expr) => {{
        let v = $s.below(100) as u64;
        let make: fn(u64) -> $t = $make;
        let num: fn(&$t) -> u64 = $num;
        let held = $m.get(&$k).copied();
        match $s.below(6) {
            0 | 1 => {
                $s.note("op", &format!("insert {} {}", stringify!($t), v));
                eqv!($x.insert::<$t>(make(v)).as_ref().map(num), held, "what insert hands back");
                $m.insert($k, v);
            }
            2 => {
                $s.note("op", &format!("remove {}", stringify!($t)));
                eqv!($x.remove::<$t>().as_ref().map(num), held, "what remove hands back");
                $m.remove(&$k);
            }
            3 => {
                $s.note("op", &format!("get_mut {}", stringify!($t)));
                match $x.get_mut::<$t>() {
                    Some(r) => {
                        eqv!(Some(num(r)), held, "get_mut");
                        *r = make(v);
                        $m.insert($k, v);
                    }
                    None => eqv!(None::<u64>, held, "get_mut"),
                }
            }
            _ => {}
        }
    }};
}
macro_rules! look {
    ($x:expr, $m:expr, $k:expr, $t:ty, $num:expr) => {{
        let num: fn(&$t) -> u64 = $num;
        eqv!($x.get::<$t>().map(num), $m.get(&$k).copied(), "get after the operation");
        eqv!($x.contains::<$t>(), $m.contains_key(&$k), "contains after the operation");
    }};
}
fn history(s: &mut Src) -> R {
    let mut req = Request::new(Method::Get, Url::parse("http://a/").unwrap());
    let mut res = Response::new(200);
    let on_req = s.bool();
    let mut m: BTreeMap<u8, u64> = BTreeMap::new();
    for _ in 0..1 + s.below(10) {
        {
            let x = if on_req { req.ext_mut() } else { res.ext_mut() };
            match s.below(13) {
                0 => on_type!(s, x, m, 0u8, u64, |v| v, |v| *v),
                1 => on_type!(s, x, m, 1u8, i64, |v| v as i64, |v| *v as u64),
                2 => on_type!(s, x, m, 2u8, String, |v| v.to_string(), |v| v.parse().unwrap()),
                3 => on_type!(s, x, m, 3u8, A, A, |v| v.0),
                4 => on_type!(s, x, m, 4u8, B, B, |v| v.0),
                5 => on_type!(s, x, m, 5u8, G<u8>, |v| G(v, std::marker::PhantomData), |v| v.0),
                6 => on_type!(s, x, m, 6u8, G<u16>, |v| G(v, std::marker::PhantomData), |v| v.0),
                7 => on_type!(s, x, m, 7u8, Option<A>, |v| Some(A(v)), |v| v.as_ref().unwrap().0),
                8 => on_type!(s, x, m, 8u8, L0, <() as Alike<0>>::make, <() as Alike<0>>::num),
                9 => on_type!(s, x, m, 9u8, L1, <() as Alike<1>>::make, <() as Alike<1>>::num),
                10 => on_type!(s, x, m, 10u8, F0, |v| G(v, std::marker::PhantomData), |v| v.0),
                11 => on_type!(s, x, m, 11u8, F1, |v| G(v, std::marker::PhantomData), |v| v.0),
                _ => {
                    if s.one_in(3) {
                        s.note("op", "clear");
                        x.clear();
                        m.clear();
                    }
                }
            }
        }
        let x = if on_req { req.ext() } else { res.ext() };
        look!(x, m, 0u8, u64, |v| *v);
        look!(x, m, 1u8, i64, |v| *v as u64);
        look!(x, m, 2u8, String, |v| v.parse().unwrap());
        look!(x, m, 3u8, A, |v| v.0);
        look!(x, m, 4u8, B, |v| v.0);
        look!(x, m, 5u8, G<u8>, |v| v.0);
        look!(x, m, 6u8, G<u16>, |v| v.0);
        look!(x, m, 7u8, Option<A>, |v| v.as_ref().unwrap().0);
        look!(x, m, 8u8, L0, <() as Alike<0>>::num);
        look!(x, m, 9u8, L1, <() as Alike<1>>::num);
        look!(x, m, 10u8, F0, |v| v.0);
        look!(x, m, 11u8, F1, |v| v.0);
    }
    // the other message has none of it
    let other = if on_req { res.ext() } else { req.ext() };
    ck!(!other.contains::<u64>() && !other.contains::<A>() && other.get::<String>().is_none(), "the other message got an extension");
    Ok(())
}
fn drops(s: &mut Src) -> R {
    let live = Arc::new(std::sync::atomic::AtomicI64::new(0));
    let n = || live.load(std::sync::atomic::Ordering::SeqCst);
    let mut r = Response::new(200);
    let mut held = 0;
    for _ in 0..s.size(6) {
        match s.below(3) {
            0 => {
                live.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                s.note("op", "insert");
                let old = r.ext_mut().insert(Counted(1, live.clone()));
                eqv!(old.is_some(), held == 1, "insert hands the old value back");
                held = 1;
                drop(old);
            }
            1 => {
                s.note("op", "remove");
                let old = r.ext_mut().remove::<Counted>();
                eqv!(old.map(|c| c.0), if held == 1 { Some(1) } else { None }, "remove hands the value back");
                held = 0;
            }
            _ => {
                s.note("op", "clear");
                r.ext_mut().clear();
                held = 0;
            }
        }
        eqv!(n(), held, "values alive");
    }
    drop(r);
    eqv!(n(), 0, "values alive at the end");
    Ok(())
}
pub fn contracts() -> Vec<C> {
    vec![
        C { id: "ext.history", clause: "every operation sees and changes exactly the value of its type", how: How::Rand(12000), f: history },
        C { id: "ext.drops", clause: "a value lives until it is replaced, removed or cleared", how: How::Rand(4000), f: drops },
    ]
}
