use crate::core::*;
use crate::p05::noop;
use crate::{ck, eqv};
use futures_lite::io::{AsyncRead, AsyncWrite};
use futures_lite::Future;
use http_types::headers::Headers;
use http_types::trailers::Trailers;
use http_types::upgrade::Connection;
use http_types::{Request, Response, StatusCode};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

fn dump(h: &Headers) -> BTreeMap<String, Vec<String>> {
    h.iter().map(|(n, v)| (n.as_str().to_string(), v.iter().map(|x| x.as_str().to_string()).collect())).collect()
}
fn trailers(s: &mut Src) -> (Trailers, BTreeMap<String, Vec<String>>) {
    let mut t = Trailers::new();
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for _ in 0..s.size(4) {
        let n = *s.pick(&["Content-MD5", "x-a", "X-A", "etag"]);
        let v = s.ascii_str(4);
        match s.below(4) {
            0 => {
                let _ = t.insert(n, v.as_str());
                m.insert(n.to_lowercase(), vec![v]);
            }
            1 => {
                let old = t.remove(n);
                eq_opt(old.map(|v| v.iter().map(|x| x.as_str().to_string()).collect()), m.remove(&n.to_lowercase()));
            }
            _ => {
                let _ = t.append(n, v.as_str());
                m.entry(n.to_lowercase()).or_default().push(v);
            }
        }
    }
    (t, m)
}
fn eq_opt(a: Option<Vec<String>>, b: Option<Vec<String>>) {
    assert_eq!(a, b, "removed trailer");
}
fn poll<F: Future + Unpin>(f: &mut F) -> Poll<F::Output> {
    let w = noop();
    Pin::new(f).poll(&mut Context::from_waker(&w))
}
fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}
macro_rules! trail {
    ($fname:ident, $new:expr) => {
        fn $fname(s: &mut Src) -> R {
            let mut c = $new;
            ck!(!c.has_trailers(), "has trailers before any were promised");
            // the two ends are taken in either order, the receiver may be polled early, the sender dropped unused
            let (mut tx, mut rx) = (None, None);
            let mut sent: Option<BTreeMap<String, Vec<String>>> = None;
            let mut promised = false;
            let mut closed = false;
            let mut got = false;
            for _ in 0..2 + s.below(9) {
                match s.below(6) {
                    0 => {
                        s.note("op", "send_trailers");
                        let again = promised;
                        match quiet(|| c.send_trailers()) {
                            Ok(x) => {
                                ck!(!again, "a second sender was handed out");
                                tx = Some(x);
                                promised = true;
                            }
                            Err(()) => ck!(again, "the sender was refused"),
                        }
                    }
                    1 => {
                        s.note("op", "recv_trailers");
                        let again = rx.is_some();
                        match quiet(|| c.recv_trailers()) {
                            Ok(x) => {
                                ck!(!again, "a second receiver was handed out");
                                rx = Some(x);
                            }
                            Err(()) => ck!(again, "the receiver was refused"),
                        }
                    }
                    2 => {
                        if let Some(x) = tx.take() {
                            let (t, m) = trailers(s);
                            s.dbg("send", &m);
                            eqv!(dump(&t), m, "trailers before sending");
                            eqv!(dump(&t.clone()), m, "clone of the trailers");
                            let mut f = Box::pin(x.send(t));
                            ck!(poll(&mut f).is_ready(), "sending into an empty channel waits");
                            sent = Some(m);
                            closed = true;
                        }
                    }
                    3 => {
                        if tx.take().is_some() {
                            s.note("op", "drop the sender");
                            closed = true;
                        }
                    }
                    _ => {
                        if let Some(x) = rx.as_mut() {
                            s.note("op", "poll");
                            match (poll(x), &sent, closed) {
                                (Poll::Ready(Some(t)), Some(m), _) if !got => {
                                    eqv!(dump(&t), m.clone(), "trailers received");
                                    got = true;
                                }
                                (Poll::Ready(None), s, true) => ck!(got || s.is_none(), "trailers were sent but none received"),
                                (Poll::Pending, None, false) => {}
                                (r, s, c) => ck!(false, "poll gave {:?}, sent {:?}, sender gone {}", r.map(|t| t.map(|t| dump(&t))), s, c),
                            }
                        }
                    }
                }
                eqv!(c.has_trailers(), promised, "has_trailers");
            }
            Ok(())
        }
    };
}
trail!(req_trailers, Request::get("http://h/"));
trail!(res_trailers, Response::new(StatusCode::Ok));

#[derive(Default)]
struct Log {
    calls: Vec<String>,
    plan: Vec<(u8, usize)>,
    at: usize,
    src: Vec<u8>,
    pos: usize,
}
struct Wire(Arc<Mutex<Log>>);
impl Log {
    fn next(&mut self) -> (u8, usize) {
        let p = self.plan[self.at % self.plan.len()];
        self.at += 1;
        p
    }
}
fn answer(k: u8, n: usize) -> Poll<std::io::Result<usize>> {
    match k {
        0 => Poll::Pending,
        1 => Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::Other, "planned"))),
        _ => Poll::Ready(Ok(n)),
    }
}
impl AsyncRead for Wire {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let mut l = self.0.lock().unwrap();
        let (k, n) = l.next();
        let n = n.min(buf.len()).min(l.src.len() - l.pos);
        l.calls.push(format!("read {}", buf.len()));
        if k > 1 {
            let p = l.pos;
            buf[..n].copy_from_slice(&l.src[p..p + n]);
            l.pos += n;
        }
        answer(k, n)
    }
}
impl AsyncWrite for Wire {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let mut l = self.0.lock().unwrap();
        let (k, n) = l.next();
        l.calls.push(format!("write {:?}", buf));
        answer(k, n.min(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let mut l = self.0.lock().unwrap();
        let (k, _) = l.next();
        l.calls.push("flush".into());
        answer(k, 0).map_ok(|_| ())
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let mut l = self.0.lock().unwrap();
        let (k, _) = l.next();
        l.calls.push("close".into());
        answer(k, 0).map_ok(|_| ())
    }
}
fn show<T: std::fmt::Debug>(p: Poll<std::io::Result<T>>) -> String {
    match p {
        Poll::Pending => "pending".into(),
        Poll::Ready(Err(e)) => format!("error {}", e),
        Poll::Ready(Ok(x)) => format!("ok {:?}", x),
    }
}
fn connection(s: &mut Src) -> R {
    let plan: Vec<(u8, usize)> = (0..1 + s.below(6)).map(|_| (s.below(5) as u8, s.below(5))).collect();
    let src: Vec<u8> = (0..s.size(11)).map(|i| i as u8).collect();
    let log = Arc::new(Mutex::new(Log { plan: plan.clone(), src: src.clone(), ..Log::default() }));
    let mut c = Connection::new(Wire(log.clone()));
    if s.bool() {
        // carried by a response's upgrade channel
        let mut r = Response::new(StatusCode::SwitchingProtocols);
        ck!(!r.has_upgrade(), "has an upgrade before one was promised");
        let first = s.bool();
        let (tx, mut rx);
        if first {
            tx = r.send_upgrade();
            ck!(r.has_upgrade(), "has_upgrade after send_upgrade");
            rx = futures_lite::future::block_on(r.recv_upgrade());
        } else {
            rx = futures_lite::future::block_on(r.recv_upgrade());
            ck!(r.has_upgrade(), "has_upgrade after recv_upgrade");
            tx = r.send_upgrade();
        }
        ck!(quiet(|| r.send_upgrade()).is_err(), "a second upgrade sender was handed out");
        if s.bool() {
            ck!(poll(&mut rx).is_pending(), "an upgrade before it was sent");
        }
        if s.one_in(5) {
            drop(tx);
            ck!(matches!(poll(&mut rx), Poll::Ready(None)), "no upgrade was sent");
            return Ok(());
        }
        let mut f = Box::pin(tx.send(c));
        ck!(poll(&mut f).is_ready(), "sending into an empty channel waits");
        drop(f);
        c = match poll(&mut rx) {
            Poll::Ready(Some(c)) => c,
            x => return Err(format!("the upgrade was not received: {:?}", x.map(|o| o.is_some()))),
        };
        ck!(matches!(poll(&mut rx), Poll::Ready(None)), "a second upgrade");
    }
    let w = noop();
    let mut cx = Context::from_waker(&w);
    let mut pos = 0;
    let mut calls = vec![];
    for i in 0..1 + s.below(8) {
        let (k, n) = plan[i % plan.len()];
        match s.below(4) {
            0 => {
                let mut buf = vec![99; s.below(6)];
                calls.push(format!("read {}", buf.len()));
                let n = n.min(buf.len()).min(src.len() - pos);
                let r = show(Pin::new(&mut c).poll_read(&mut cx, &mut buf));
                s.dbg("read", &r);
                eqv!(r, show(answer(k, n)), "read");
                if k > 1 {
                    eqv!(&buf[..n], &src[pos..pos + n], "bytes read");
                    pos += n;
                }
            }
            1 => {
                let buf: Vec<u8> = (0..s.size(5)).map(|_| s.below(256) as u8).collect();
                calls.push(format!("write {:?}", buf));
                let r = show(Pin::new(&mut c).poll_write(&mut cx, &buf));
                s.dbg("write", &r);
                eqv!(r, show(answer(k, n.min(buf.len()))), "write");
            }
            2 => {
                calls.push("flush".into());
                eqv!(show(Pin::new(&mut c).poll_flush(&mut cx)), show(answer(k, 0).map_ok(|_| ())), "flush");
            }
            _ => {
                calls.push("close".into());
                eqv!(show(Pin::new(&mut c).poll_close(&mut cx)), show(answer(k, 0).map_ok(|_| ())), "close");
            }
        }
        eqv!(log.lock().unwrap().calls.clone(), calls, "calls reaching the transport");
    }
    Ok(())
}
// sender and receiver on two threads
fn threads(s: &mut Src) -> R {
    let (t, m) = trailers(s);
    let mut c = Response::new(StatusCode::Ok);
    let tx = c.send_trailers();
    let rx = c.recv_trailers();
    let drop_it = s.one_in(4);
    let spin = s.below(200);
    s.dbg("trailers", &m);
    let h = std::thread::spawn(move || {
        for _ in 0..spin {
            std::hint::spin_loop();
        }
        if drop_it {
            drop(tx);
        } else {
            futures_lite::future::block_on(tx.send(t));
        }
    });
    let got = futures_lite::future::block_on(rx);
    h.join().unwrap();
    eqv!(got.map(|t| dump(&t)), if drop_it { None } else { Some(m) }, "received");
    Ok(())
}
pub fn contracts() -> Vec<C> {
    vec![
        C { id: "trailers.request", clause: "trailers of a request", how: How::Rand(20000), f: req_trailers },
        C { id: "trailers.response", clause: "trailers of a response", how: How::Rand(20000), f: res_trailers },
        C { id: "trailers.threads", clause: "trailers between threads", how: How::Rand(1500), f: threads },
        C { id: "upgrade.connection", clause: "an upgraded connection is its transport", how: How::Rand(40000), f: connection },
    ]
}
