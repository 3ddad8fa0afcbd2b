use crate::core::*;
use crate::{ck, eqv};
use http_types::headers::{HeaderName, HeaderValue, HeaderValues, Headers};
use http_types::trailers::Trailers;
use http_types::{Method, Request, Response};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

type Model = BTreeMap<String, Vec<String>>;

const NAMES: &[&str] = &["a", "A", "content-type", "Content-Type", "x-b", "X-B", "set-cookie", "", "x y", "k_1"];
const VALUES: &[&str] = &["", "1", "a, b", "text/plain", "Q", "q", "zz"];

fn texts(v: &HeaderValues) -> Vec<String> {
    v.iter().map(|x| x.as_str().to_string()).collect()
}

fn dump(h: &Headers) -> Model {
    let mut m = Model::new();
    for (n, v) in h.iter() {
        m.insert(n.as_str().to_string(), texts(v));
    }
    m
}

macro_rules! history {
    ($fname:ident, $new:expr, $insert:ident, $append:ident, $remove:ident, $get:ident, $get_mut:ident, $names:ident, $values:ident, $as_headers:expr) => {
        fn $fname(s: &mut Src) -> R {
            let mut c = $new;
            let mut m = Model::new();
            let steps = 1 + s.below(9);
            for _ in 0..steps {
                let name = *s.pick(NAMES);
                let key = name.to_ascii_lowercase();
                let op = s.below(9);
                match op {
                    0 | 1 => {
                        // one value or a list, possibly invalid
                        let n = s.below(4);
                        let vals: Vec<String> = (0..n + 1).map(|_| s.pick(VALUES).to_string()).collect();
                        let old = m.get(&key).cloned();
                        match s.below(4) {
                            0 => {
                                s.note("op", format!("insert {:?} bad value", name));
                                ck!(c.$insert(name, "caf\u{e9}").is_err(), "insert accepted a non-ASCII value");
                            }
                            1 => {
                                s.note("op", format!("insert {:?} {:?}", name, vals[0]));
                                let r = c.$insert(name, vals[0].as_str()).map_err(|e| e.to_string())?;
                                eqv!(r.map(|v| texts(&v)), old, "insert({:?}) returned", name);
                                m.insert(key, vec![vals[0].clone()]);
                            }
                            2 => {
                                s.note("op", format!("insert {:?} list {:?}", name, vals));
                                let list: Vec<HeaderValue> = vals.iter().map(|v| HeaderValue::from_str(v).unwrap()).collect();
                                let r = c.$insert(HeaderName::from_str(name).unwrap(), &list[..]).map_err(|e| e.to_string())?;
                                eqv!(r.map(|v| texts(&v)), old, "insert({:?}) returned", name);
                                m.insert(key, vals);
                            }
                            _ => {
                                s.note("op", format!("insert {:?} values {:?}", name, vals));
                                let list: HeaderValues = vals.iter().map(|v| HeaderValue::from_str(v).unwrap()).collect();
                                let n = HeaderName::from_str(name).unwrap();
                                let r = c.$insert(&n, &list).map_err(|e| e.to_string())?;
                                eqv!(r.map(|v| texts(&v)), old, "insert({:?}) returned", name);
                                m.insert(key, vals);
                            }
                        }
                    }
                    2 | 3 | 4 => {
                        let n = s.below(3);
                        let vals: Vec<String> = (0..n + 1).map(|_| s.pick(VALUES).to_string()).collect();
                        match s.below(4) {
                            0 => {
                                s.note("op", format!("append {:?} bad value", name));
                                ck!(c.$append(name, "\u{20ac}").is_err(), "append accepted a non-ASCII value");
                            }
                            1 => {
                                s.note("op", format!("append {:?} {:?}", name, vals[0]));
                                c.$append(name, vals[0].clone()).map_err(|e| e.to_string())?;
                                m.entry(key).or_default().push(vals[0].clone());
                            }
                            _ => {
                                s.note("op", format!("append {:?} list {:?}", name, vals));
                                let list: Vec<HeaderValue> = vals.iter().map(|v| HeaderValue::from_str(v).unwrap()).collect();
                                c.$append(name, &list[..]).map_err(|e| e.to_string())?;
                                m.entry(key).or_default().extend(vals);
                            }
                        }
                    }
                    5 => {
                        s.note("op", format!("remove {:?}", name));
                        let r = c.$remove(name);
                        eqv!(r.map(|v| texts(&v)), m.remove(&key), "remove({:?}) returned", name);
                    }
                    6 => {
                        let v = s.pick(VALUES).to_string();
                        s.note("op", format!("get_mut {:?} append {:?}", name, v));
                        let got = c.$get_mut(name);
                        ck!(got.is_some() == m.contains_key(&key), "get_mut({:?}) is_some", name);
                        if let Some(hv) = got {
                            let mut other = HeaderValues::from(vec![HeaderValue::from_str(&v).unwrap()]);
                            hv.append(&mut other);
                            eqv!(other.iter().count(), 0, "append leaves the source empty");
                            m.get_mut(&key).unwrap().push(v);
                        }
                    }
                    7 => {
                        let v = s.pick(VALUES).to_string();
                        let i = s.below(3);
                        s.note("op", format!("get_mut {:?}[{}] = {:?}", name, i, v));
                        if let Some(hv) = c.$get_mut(name) {
                            let ml = m.get_mut(&key).unwrap();
                            if i == 2 && !ml.is_empty() && s.bool() {
                                let x = HeaderValue::from_str("first").unwrap();
                                if s.bool() { **hv = x } else { *AsMut::<HeaderValue>::as_mut(hv) = x }
                                ml[0] = "first".into();
                                eqv!(AsRef::<HeaderValue>::as_ref(hv).as_str(), "first", "the first value as a reference");
                            }
                            let slot = hv.get_mut(i);
                            ck!(slot.is_some() == (i < ml.len()), "get_mut index {}", i);
                            if let Some(x) = slot {
                                *x = HeaderValue::from_str(&v).unwrap();
                                ml[i] = v;
                            }
                        }
                    }
                    _ => {
                        s.note("op", "iter_mut: append !");
                        for (_, hv) in c.iter_mut() {
                            hv.append(&mut HeaderValues::from(HeaderValue::from_str("!").unwrap()));
                        }
                        for v in m.values_mut() {
                            v.push("!".into());
                        }
                    }
                }
                // the abstract view after every step
                let h: &Headers = $as_headers(&c);
                eqv!(dump(h), m, "contents");
                eqv!(h.iter().size_hint(), (m.len(), Some(m.len())), "iter().size_hint()");
                let mut names: Vec<String> = c.$names().map(|n| n.as_str().to_string()).collect();
                names.sort();
                eqv!(names, m.keys().cloned().collect::<Vec<_>>(), "names");
                let mut vs: Vec<String> = c.$values().map(|n| n.as_str().to_string()).collect();
                vs.sort();
                let mut want: Vec<String> = m.values().flatten().cloned().collect();
                want.sort();
                eqv!(vs, want, "values");
                let mut it = c.$values();
                for left in (0..=want.len()).rev() {
                    let (lo, hi) = it.size_hint();
                    ck!(lo <= left && hi.map_or(true, |h| left <= h), "values(): {} left but size_hint is ({}, {:?})", left, lo, hi);
                    ck!(it.next().is_some() == (left > 0), "values() length");
                }
                ck!(it.next().is_none(), "values() is fused");
                for name in NAMES {
                    let k = name.to_ascii_lowercase();
                    let got = c.$get(*name);
                    eqv!(got.map(texts), m.get(&k).cloned(), "get({:?})", name);
                    let n = HeaderName::from_str(name).unwrap();
                    eqv!(c.$get(&n).map(texts), m.get(&k).cloned(), "get(&name {:?})", name);
                    match (m.get(&k), catch_unwind(AssertUnwindSafe(|| (texts(&c[*name]), texts(&c[n.clone()]))))) {
                        (Some(w), Ok((a, b))) => {
                            eqv!(a, *w, "index by text {:?}", name);
                            eqv!(b, *w, "index by name {:?}", name);
                            eqv!(got.unwrap().last().as_str(), w.last().unwrap().as_str(), "last");
                            eqv!(got.unwrap().as_str(), w[0], "first");
                            let mut it = got.unwrap().iter();
                            for left in (0..=w.len()).rev() {
                                let (lo, hi) = it.size_hint();
                                ck!(lo <= left && hi.map_or(true, |h| left <= h), "list iter: {} left but size_hint is ({}, {:?})", left, lo, hi);
                                it.next();
                            }
                        }
                        (None, Err(_)) => {}
                        (w, g) => return Err(format!("index {:?}: present = {}, returned = {}", name, w.is_some(), g.is_ok())),
                    }
                }
            }
            // clones are equal and independent; consuming iteration yields everything once
            let mut d = c.clone();
            eqv!(dump($as_headers(&d)), m, "clone");
            d.$insert("only-in-clone", "1").map_err(|e| e.to_string())?;
            eqv!(dump($as_headers(&c)), m, "original after changing the clone");
            Ok(())
        }
    };
}

history!(request, Request::new(Method::Get, "http://example.com"), insert_header, append_header, remove_header, header, header_mut, header_names, header_values, |c: &Request| -> &Headers { unsafe { &*(c.as_ref() as *const Headers) } });
history!(response, Response::new(200), insert_header, append_header, remove_header, header, header_mut, header_names, header_values, |c: &Response| -> &Headers { unsafe { &*(c.as_ref() as *const Headers) } });
history!(trailers, Trailers::new(), insert, append, remove, get, get_mut, names, values, |c: &Trailers| -> &Headers { unsafe { &*(&**c as *const Headers) } });
history!(headers, { let r = Response::new(200); let h: &Headers = r.as_ref(); h.clone() }, insert, append, remove, get, get_mut, names, values, |c: &Headers| -> &Headers { unsafe { &*(c as *const Headers) } });

fn consume(s: &mut Src) -> R {
    let mut req = Request::new(Method::Get, "http://example.com");
    let mut m = Model::new();
    for _ in 0..s.size(5) {
        let (n, v) = (*s.pick(NAMES), *s.pick(VALUES));
        s.note("append", format!("{:?} {:?}", n, v));
        req.append_header(n, v).map_err(|e| e.to_string())?;
        m.entry(n.to_ascii_lowercase()).or_default().push(v.to_string());
    }
    let mut seen = Model::new();
    for (n, v) in &req {
        ck!(seen.insert(n.as_str().to_string(), texts(v)).is_none(), "a name came twice");
    }
    eqv!(seen, m, "for (n, v) in &request");
    let h: &Headers = req.as_ref();
    let owned: Vec<(String, Vec<String>)> = h.clone().into_iter().map(|(n, v)| (n.as_str().to_string(), v.into_iter().map(|x| x.as_str().to_string()).collect())).collect();
    eqv!(owned.len(), m.len(), "into_iter length");
    eqv!(owned.into_iter().collect::<Model>(), m, "Headers::into_iter");
    let mut res = Response::new(200);
    for (n, v) in req {
        res.insert_header(n, &v).map_err(|e| e.to_string())?;
    }
    let mut tr = Trailers::new();
    for (n, v) in &mut res {
        tr.insert(n, &*v).map_err(|e| e.to_string())?;
    }
    eqv!(dump(&tr), m, "copied through Request, Response and Trailers");
    let out: Model = res.into_iter().map(|(n, v)| (n.as_str().to_string(), texts(&v))).collect();
    eqv!(out, m, "Response::into_iter");
    Ok(())
}

/// A name that is present has a value to show.
fn nonempty(s: &mut Src) -> R {
    let mut r = Response::new(200);
    let empty: Vec<HeaderValue> = vec![];
    match s.below(3) {
        0 => {
            let _ = r.insert_header("x", &empty[..]);
        }
        1 => {
            let _ = r.append_header("x", &empty[..]);
        }
        _ => {
            let _ = r.insert_header("x", &HeaderValues::from(empty));
        }
    }
    if let Some(v) = r.header("x") {
        ck!(v.iter().next().is_some(), "a header inserted from an empty list is present without a value");
    }
    Ok(())
}

pub fn contracts() -> Vec<C> {
    vec![
        C { id: "map.request", clause: "histories of header operations on a Request against the multimap view", how: How::Rand(12000), f: request },
        C { id: "map.response", clause: "histories of header operations on a Response against the multimap view", how: How::Rand(12000), f: response },
        C { id: "map.trailers", clause: "histories of operations on Trailers against the multimap view", how: How::Rand(12000), f: trailers },
        C { id: "map.headers", clause: "histories of operations on Headers against the multimap view", how: How::Rand(12000), f: headers },
        C { id: "map.consume", clause: "borrowing, mutable and consuming iteration yield every name once with its values in order", how: How::Rand(8000), f: consume },
        C { id: "map.nonempty", clause: "a present name has at least one value", how: How::All(10), f: nonempty },
    ]
}
