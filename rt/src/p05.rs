use crate::core::*;
use crate::{ck, eqv};
use futures_lite::{future::block_on, AsyncBufRead, AsyncBufReadExt, AsyncRead, AsyncReadExt};
use http_types::{mime, Body, Method, Request, Response, StatusCode, Url};
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};

/// A source that gives its bytes in chosen pieces, with Pending and errors in between.
pub struct Sched {
    pub data: Vec<u8>,
    pub pos: usize,
    pub plan: Vec<u8>, // piece sizes; 250 = Pending, 251 = error
    pub at: usize,
    pub ready: usize, // bytes shown by poll_fill_buf and not yet consumed
}
impl Sched {
    fn step(&mut self) -> u8 {
        let v = if self.plan.is_empty() { 7 } else { self.plan[self.at % self.plan.len()] };
        self.at += 1;
        v
    }
}
impl AsyncRead for Sched {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        match self.step() {
            250 => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            251 => Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, "planned"))),
            n => {
                let n = (n as usize).max(1).min(buf.len()).min(self.data.len() - self.pos);
                let p = self.pos;
                buf[..n].copy_from_slice(&self.data[p..p + n]);
                self.pos += n;
                self.ready = self.ready.saturating_sub(n);
                Poll::Ready(Ok(n))
            }
        }
    }
}
impl AsyncBufRead for Sched {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        if this.ready > 0 || this.pos == this.data.len() {
            return Poll::Ready(Ok(&this.data[this.pos..this.pos + this.ready]));
        }
        match this.step() {
            250 => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            251 => Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, "planned"))),
            n => {
                let n = (n as usize).max(1).min(this.data.len() - this.pos);
                this.ready = n;
                Poll::Ready(Ok(&this.data[this.pos..this.pos + n]))
            }
        }
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        self.pos += amt;
        self.ready -= amt;
    }
}

fn bytes(s: &mut Src, max: usize) -> Vec<u8> {
    let n = s.below(max + 1);
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(s.choose(3) as u8)).collect()
}
fn plan(s: &mut Src, errs: bool) -> Vec<u8> {
    let n = s.below(6);
    let mut v: Vec<u8> = (0..n)
        .map(|_| match s.below(if errs { 6 } else { 5 }) {
            0 => 1,
            1 => 250,
            5 => 251,
            2 => 3,
            3 => 200,
            _ => 9,
        })
        .collect();
    if !v.iter().any(|x| *x < 250) {
        v.push(2);
    }
    v
}
fn length(s: &mut Src, data: usize) -> Option<u64> {
    match s.below(6) {
        0 => None,
        1 => Some(data as u64),
        2 => Some(0),
        3 => Some(s.below(data + 1) as u64),
        4 => Some(data as u64 + s.choose(5)),
        _ => Some(s.u64e()),
    }
}
fn clip(d: &[u8], l: Option<u64>) -> Vec<u8> {
    match l {
        Some(l) if (l as u128) < d.len() as u128 => d[..l as usize].to_vec(),
        _ => d.to_vec(),
    }
}

/// A body built from nested parts, with what it must give and the length it must declare.
fn any_body(s: &mut Src, depth: usize, errs: bool) -> (Body, Vec<u8>, Option<u64>, Option<mime::Mime>) {
    let k = if depth == 0 { s.below(6) } else { s.below(9) };
    let (mut b, mut want, mut len, mut m) = match k {
        0 => (Body::empty(), vec![], Some(0), Some(mime::BYTE_STREAM)),
        1 => {
            let d = bytes(s, 40);
            (Body::from_bytes(d.clone()), d.clone(), Some(d.len() as u64), Some(mime::BYTE_STREAM))
        }
        2 => {
            let t = s.any_str(12);
            let l = t.len() as u64;
            (if s.bool() { Body::from_string(t.clone()) } else { Body::from(t.as_str()) }, t.into_bytes(), Some(l), Some(mime::PLAIN))
        }
        3 | 4 | 5 => {
            let d = bytes(s, 40);
            let l = length(s, d.len());
            let p = plan(s, errs);
            (Body::from_reader(Sched { data: d.clone(), pos: 0, plan: p, at: 0, ready: 0 }, l), clip(&d, l), l, Some(mime::BYTE_STREAM))
        }
        _ => {
            let (a, wa, la, ma) = any_body(s, depth - 1, errs);
            let (b, wb, lb, mb) = any_body(s, depth - 1, errs);
            let l = match (la, lb) {
                (Some(x), Some(y)) => x.checked_add(y),
                _ => None,
            };
            let m = if ma == mb { ma } else { Some(mime::BYTE_STREAM) };
            let mut w = wa;
            w.extend(wb);
            (a.chain(b), w, l, m)
        }
    };
    if s.one_in(4) {
        let nm = s.pick(&[None, Some(mime::HTML), Some(mime::JSON), Some(mime::PLAIN)]).clone();
        b.set_mime(nm.clone());
        m = nm;
    }
    // read some of it first; afterwards the rest is what the body stands for
    if s.one_in(3) {
        let n = 1 + s.below(10);
        let mut buf = vec![0u8; n];
        let how = s.below(2);
        let got = match how {
            0 => block_on(b.read(&mut buf)).ok().map(|k| buf[..k].to_vec()),
            _ => match block_on(b.fill_buf()).map(|x| x.to_vec()) {
                Ok(x) => {
                    let k = x.len().min(n);
                    b.consume(k);
                    Some(x[..k].to_vec())
                }
                Err(_) => None,
            },
        };
        if let Some(g) = got {
            s.note("read before", format!("{:?} via {}", g, how));
            if want.len() < g.len() || want[..g.len()] != g[..] {
                // reported by the caller: it can no longer match
                want = vec![0xEE; 3];
            } else {
                want.drain(..g.len());
                // the declared length stays; only chaining subtracts what was read
                if let Some(l) = len {
                    len = Some(l - g.len() as u64);
                }
            }
        }
    }
    s.note("part", format!("{:?} declared {:?} mime {:?}", want, len, m.as_ref().map(|x| x.to_string())));
    (b, want, len, m)
}

/// Gives exactly its data, and after that never answers (or fails): the end is the declared length's.
struct Silent {
    data: Vec<u8>,
    pos: usize,
    fail: bool,
}
impl AsyncRead for Silent {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let n = buf.len().min(self.data.len() - self.pos);
        if n == 0 {
            return if self.fail { Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, "read past the length"))) } else { Poll::Pending };
        }
        let p = self.pos;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n;
        Poll::Ready(Ok(n))
    }
}
impl AsyncBufRead for Silent {
    fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        if this.pos == this.data.len() {
            return if this.fail { Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, "read past the length"))) } else { Poll::Pending };
        }
        Poll::Ready(Ok(&this.data[this.pos..]))
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        self.pos += amt;
    }
}
fn stops(s: &mut Src) -> R {
    let d = bytes(s, 20);
    let src = Silent { data: d.clone(), pos: 0, fail: s.bool() };
    let mut b = Body::from_reader(src, Some(d.len() as u64));
    s.dbg("content", &d);
    let waker = noop();
    let mut cx = Context::from_waker(&waker);
    let mut got = vec![];
    for _ in 0..100 {
        let n = if s.bool() {
            let mut buf = vec![0; 1 + s.below(9)];
            match Pin::new(&mut b).poll_read(&mut cx, &mut buf) {
                Poll::Ready(Ok(n)) => {
                    got.extend_from_slice(&buf[..n]);
                    n
                }
                x => return Err(format!("read {:?} after {} of {} bytes", x, got.len(), d.len())),
            }
        } else {
            match Pin::new(&mut b).poll_fill_buf(&mut cx) {
                Poll::Ready(Ok(x)) => {
                    let n = x.len().min(1 + s.below(9));
                    got.extend_from_slice(&x[..n]);
                    Pin::new(&mut b).consume(n);
                    n
                }
                x => return Err(format!("fill_buf {:?} after {} of {} bytes", x.map(|x| x.map(|x| x.to_vec())), got.len(), d.len())),
            }
        };
        if n == 0 && s.bool() {
            break;
        }
    }
    eqv!(got, d, "content up to the declared length");
    Ok(())
}

/// Ends reading by any mix of calls and checks every step.
fn drain(s: &mut Src, b: &mut Body, want: &[u8]) -> Result<(), String> {
    let mut pos = 0;
    let mut ends = 0;
    let mut steps = 0;
    // after the end it must stay at the end
    while ends < 3 {
        steps += 1;
        if steps > 3000 {
            return Ok(()); // a schedule that makes no progress (only zero-sized steps)
        }
        let waker = noop();
        let mut cx = Context::from_waker(&waker);
        if s.bool() {
            let n = s.below(12);
            let mut buf = vec![0xAA; n];
            match Pin::new(&mut *b).poll_read(&mut cx, &mut buf) {
                Poll::Ready(Ok(k)) => {
                    ck!(k <= n, "read reported {} bytes into {}", k, n);
                    ck!(k <= want.len() - pos, "read gave {} bytes, only {} are left", k, want.len() - pos);
                    eqv!(&buf[..k], &want[pos..pos + k], "bytes read");
                    ck!(buf[k..].iter().all(|x| *x == 0xAA), "read wrote past what it reported");
                    ck!(k > 0 || n == 0 || pos == want.len(), "end of body reported with {} bytes left", want.len() - pos);
                    pos += k;
                    if k == 0 && n > 0 {
                        ends += 1;
                    }
                }
                _ => {}
            }
        } else {
            match Pin::new(&mut *b).poll_fill_buf(&mut cx) {
                Poll::Ready(Ok(x)) => {
                    let x = x.to_vec();
                    ck!(x.len() <= want.len() - pos, "fill_buf gave {} bytes, only {} are left", x.len(), want.len() - pos);
                    eqv!(&x[..], &want[pos..pos + x.len()], "bytes buffered");
                    ck!(!x.is_empty() || pos == want.len(), "end of body reported with {} bytes left", want.len() - pos);
                    if x.is_empty() {
                        ends += 1;
                    } else {
                        let k = s.below(x.len() + 1);
                        Pin::new(&mut *b).consume(k);
                        pos += k;
                    }
                }
                _ => {}
            }
        }
    }
    eqv!(pos, want.len(), "bytes given in total");
    Ok(())
}

pub fn noop() -> std::task::Waker {
    struct N;
    impl std::task::Wake for N {
        fn wake(self: std::sync::Arc<Self>) {}
    }
    std::sync::Arc::new(N).into()
}

fn schedule(s: &mut Src) -> R {
    let (mut b, want, _, _) = any_body(s, 2, true);
    drain(s, &mut b, &want)
}

fn declared(s: &mut Src) -> R {
    let d = bytes(s, 20);
    let l = length(s, d.len());
    s.dbg("declared", l);
    let mut b = Body::from_reader(Sched { data: d.clone(), pos: 0, plan: vec![], at: 0, ready: 0 }, l);
    eqv!(b.len(), l, "len()");
    eqv!(b.is_empty(), l.map(|x| x == 0), "is_empty()");
    let n = s.below(30);
    let mut buf = vec![0; n];
    let k = block_on(b.read(&mut buf)).map_err(|e| e.to_string())?;
    eqv!(b.len(), l, "len() after reading");
    let want = clip(&d, l);
    eqv!(&buf[..k], &want[..k.min(want.len())], "bytes");
    let rest = block_on(b.into_bytes()).map_err(|e| e.to_string())?;
    eqv!(rest, want[k..].to_vec(), "rest");
    Ok(())
}

fn chained(s: &mut Src) -> R {
    let (a, wa, la, ma) = any_body(s, 1, false);
    let (b, wb, lb, mb) = any_body(s, 1, false);
    let c = a.chain(b);
    let wl = match (la, lb) {
        (Some(x), Some(y)) => x.checked_add(y),
        _ => None,
    };
    eqv!(c.len(), wl, "declared length of the chain");
    eqv!(c.is_empty(), wl.map(|l| l == 0), "is_empty of the chain");
    let wm = if ma == mb { ma } else { Some(mime::BYTE_STREAM) };
    eqv!(c.mime().cloned(), wm, "mime of the chain");
    let mut w = wa;
    w.extend(wb);
    eqv!(block_on(c.into_bytes()).map_err(|e| e.to_string())?, w, "content of the chain");
    Ok(())
}

fn constructors(s: &mut Src) -> R {
    let t = s.any_str(20);
    s.dbg("text", &t);
    let v: Vec<(Body, Vec<u8>, mime::Mime)> = vec![
        (Body::empty(), vec![], mime::BYTE_STREAM),
        (Body::from_string(t.clone()), t.clone().into_bytes(), mime::PLAIN),
        (Body::from(t.clone()), t.clone().into_bytes(), mime::PLAIN),
        (Body::from(t.as_str()), t.clone().into_bytes(), mime::PLAIN),
        (Body::from_bytes(t.clone().into_bytes()), t.clone().into_bytes(), mime::BYTE_STREAM),
        (Body::from(t.clone().into_bytes()), t.clone().into_bytes(), mime::BYTE_STREAM),
        (Body::from(t.as_bytes()), t.clone().into_bytes(), mime::BYTE_STREAM),
        (Body::from_json(&t).map_err(|e| e.to_string())?, serde_json::to_vec(&t).unwrap(), mime::JSON),
        (Body::from(serde_json::json!({ "k": t })), serde_json::to_vec(&serde_json::json!({ "k": t })).unwrap(), mime::JSON),
    ];
    for (i, (b, w, m)) in v.into_iter().enumerate() {
        eqv!(b.len(), Some(w.len() as u64), "constructor {} declared length", i);
        eqv!(b.is_empty(), Some(w.is_empty()), "constructor {} is_empty", i);
        eqv!(b.mime(), Some(&m), "constructor {} mime", i);
        eqv!(block_on(b.into_bytes()).map_err(|e| e.to_string())?, w, "constructor {} content", i);
    }
    let mut b = Body::from(t.as_str());
    b.set_mime(None);
    eqv!(b.mime(), None, "set_mime(None)");
    b.set_mime(Some(mime::CSS));
    eqv!(b.mime(), Some(&mime::CSS), "set_mime");
    eqv!(block_on(b.into_string()).map_err(|e| e.to_string())?, t, "into_string");
    let mut r = Body::from(t.as_str()).into_reader();
    let mut o = String::new();
    block_on(r.read_to_string(&mut o)).map_err(|e| e.to_string())?;
    eqv!(o, t, "into_reader");
    Ok(())
}

/// Whole-body readers: the clipped content, or an error with a client-error status.
fn collect(s: &mut Src) -> R {
    let d = if s.bool() { s.any_str(10).into_bytes() } else { (0..s.size(19)).map(|_| s.choose(256) as u8).collect() };
    let l = length(s, d.len());
    let errs = s.one_in(3);
    let p = plan(s, errs);
    s.note("source", format!("{:?} declared {:?} plan {:?}", d, l, p));
    let mk = || Body::from_reader(Sched { data: d.clone(), pos: 0, plan: p.clone(), at: 0, ready: 0 }, l);
    let want = clip(&d, l);
    let fails = p.contains(&251);
    match block_on(mk().into_bytes()) {
        Ok(v) => eqv!(v, want, "into_bytes"),
        Err(e) => {
            ck!(fails, "into_bytes failed without cause: {}", e);
            eqv!(e.status(), StatusCode::UnprocessableEntity, "into_bytes error status");
        }
    }
    match block_on(mk().into_string()) {
        Ok(v) => eqv!(v.as_bytes(), &want[..], "into_string"),
        Err(e) => {
            ck!(fails || std::str::from_utf8(&want).is_err(), "into_string failed without cause: {}", e);
            eqv!(e.status(), StatusCode::UnprocessableEntity, "into_string error status");
        }
    }
    if !fails {
        ck!(block_on(mk().into_string()).is_ok() == std::str::from_utf8(&want).is_ok(), "into_string success must follow UTF-8 validity");
        let j: Result<serde_json::Value, _> = serde_json::from_slice(&want);
        match (block_on(mk().into_json::<serde_json::Value>()), j) {
            (Ok(a), Ok(b)) => eqv!(a, b, "into_json"),
            (Err(e), Err(_)) => eqv!(e.status(), StatusCode::UnprocessableEntity, "into_json error status"),
            (a, b) => return Err(format!("into_json gave {:?}, the content {:?}", a.is_ok(), b.is_ok())),
        }
    }
    // reading by lines stays within the declared length too
    if !fails {
        let mut b = mk();
        let mut got = vec![];
        loop {
            let k = block_on(b.read_until(b'\n', &mut got)).map_err(|e| e.to_string())?;
            if k == 0 {
                break;
            }
        }
        eqv!(got, want, "read_until");
    }
    Ok(())
}

fn forms(s: &mut Src) -> R {
    let n = s.below(4);
    let pairs: Vec<(String, String)> = (0..n).map(|_| (s.any_str(5), s.any_str(6))).collect();
    s.dbg("pairs", &pairs);
    let b = Body::from_form(&pairs).map_err(|e| e.to_string())?;
    eqv!(b.mime(), Some(&mime::FORM), "form mime");
    let len = b.len();
    let back: Vec<(String, String)> = {
        let raw = block_on(b.into_bytes()).map_err(|e| e.to_string())?;
        eqv!(len, Some(raw.len() as u64), "form length");
        block_on(Body::from_bytes(raw).into_form()).map_err(|e| e.to_string())?
    };
    eqv!(back, pairs, "form round trip");
    let map: std::collections::BTreeMap<String, Vec<String>> = pairs.iter().cloned().map(|(k, v)| (k, vec![v])).collect();
    let b = Body::from_json(&map).map_err(|e| e.to_string())?;
    eqv!(b.mime(), Some(&mime::JSON), "json mime");
    let back: std::collections::BTreeMap<String, Vec<String>> = block_on(b.into_json()).map_err(|e| e.to_string())?;
    eqv!(back, map, "json round trip");
    Ok(())
}

fn from_file(s: &mut Src) -> R {
    let n = match s.below(4) {
        0 => 0,
        1 => s.below(8),
        2 => 290 + s.below(20),
        _ => s.below(20000),
    };
    let d: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
    let (ext, m) = s.pick(&[("html", mime::HTML), ("css", mime::CSS), ("js", mime::JAVASCRIPT), ("json", mime::JSON), ("svg", mime::SVG), ("", mime::BYTE_STREAM), ("nosuchext", mime::BYTE_STREAM), ("txt", mime::PLAIN)]).clone();
    let png = s.one_in(4);
    let mut d = d;
    let mut m = m;
    if png {
        d.splice(0..0, [0x89, b'P', b'N', b'G', 0x0d, 0x0a, 0x1a, 0x0a]);
        m = mime::PNG;
    }
    static SEQ: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let dir = std::env::temp_dir().join(format!("rt-p05-{}-{}", std::process::id(), SEQ.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    std::fs::create_dir(&dir).map_err(|e| e.to_string())?;
    let path = dir.join(if ext.is_empty() { "f".to_string() } else { format!("f.{}", ext) });
    std::fs::write(&path, &d).map_err(|e| e.to_string())?;
    s.note("file", format!("{} bytes, .{} png={}", d.len(), ext, png));
    let r = (|| -> R {
        let b = block_on(Body::from_path(&path)).map_err(|e| e.to_string())?;
        eqv!(b.len(), Some(d.len() as u64), "file length");
        eqv!(b.mime(), Some(&m), "file mime");
        eqv!(block_on(b.into_bytes()).map_err(|e| e.to_string())?, d, "file content");
        Ok(())
    })();
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(&dir);
    r
}

/// Messages hand out exactly the body they were given, once.
fn messages(s: &mut Src) -> R {
    let t = s.any_str(8);
    let u = s.any_str(8);
    s.dbg("bodies", (&t, &u));
    macro_rules! go {
        ($m:expr) => {{
            let mut m = $m;
            eqv!(m.len(), Some(0), "length of a new message");
            eqv!(m.is_empty(), Some(true), "new message is_empty");
            m.set_body(t.as_str());
            eqv!(m.len(), Some(t.len() as u64), "length after set_body");
            let old = m.replace_body(u.as_str());
            eqv!(block_on(old.into_string()).map_err(|e| e.to_string())?, t, "replace_body returned");
            let mut other = Body::from(t.as_str());
            m.swap_body(&mut other);
            eqv!(block_on(other.into_string()).map_err(|e| e.to_string())?, u, "swap_body gave");
            match s.below(5) {
                0 => eqv!(block_on(m.take_body().into_string()).map_err(|e| e.to_string())?, t, "take_body"),
                1 => eqv!(block_on(m.body_string()).map_err(|e| e.to_string())?, t, "body_string"),
                2 => eqv!(block_on(m.body_bytes()).map_err(|e| e.to_string())?, t.clone().into_bytes(), "body_bytes"),
                3 => {
                    let mut o = String::new();
                    block_on(m.read_to_string(&mut o)).map_err(|e| e.to_string())?;
                    eqv!(o, t, "reading the message");
                }
                _ => {
                    let mut o = vec![];
                    loop {
                        let k = {
                            let x = block_on(m.fill_buf()).map_err(|e| e.to_string())?;
                            o.extend_from_slice(x);
                            x.len()
                        };
                        if k == 0 {
                            break;
                        }
                        m.consume(k);
                    }
                    eqv!(o, t.clone().into_bytes(), "buffered reading of the message");
                }
            }
            eqv!(block_on(m.body_string()).map_err(|e| e.to_string())?, String::new(), "body after it was taken");
        }};
    }
    if s.bool() {
        go!(Request::new(Method::Post, Url::parse("http://a.b/").unwrap()));
    } else {
        go!(Response::new(StatusCode::Ok));
    }
    Ok(())
}

pub fn contracts() -> Vec<C> {
    vec![
        C { id: "body.schedule", clause: "any mix of poll_read and poll_fill_buf/consume, with Pending, errors and short reads, gives exactly the leading bytes up to the declared length", how: How::Rand(40000), f: schedule },
        C { id: "body.stops", clause: "after the declared length the end is reported whatever the source would do next", how: How::Rand(8000), f: stops },
        C { id: "body.declared", clause: "len() is the declared length; reading stops at it", how: How::Rand(8000), f: declared },
        C { id: "body.chain", clause: "a chain gives both bodies in order; its length is the sum of what is left, unless unknown or overflowing", how: How::Rand(20000), f: chained },
        C { id: "body.new", clause: "constructors declare the exact length, the fallback mime and give back the content", how: How::Rand(3000), f: constructors },
        C { id: "body.collect", clause: "into_bytes/into_string/into_json/read_until give the clipped content or fail with 422", how: How::Rand(10000), f: collect },
        C { id: "body.forms", clause: "from_form/into_form and from_json/into_json are inverse", how: How::Rand(3000), f: forms },
        C { id: "body.file", clause: "from_path gives the whole file, its length and its media type", how: How::Rand(120), f: from_file },
        C { id: "body.message", clause: "set/replace/swap/take_body move whole bodies", how: How::Rand(4000), f: messages },
    ]
}
