//! The scenarios: real hyper connections whose parts run on different threads. A scenario panics when the property fails;
//! a thread that sleeps although its condition holds shows up as a deadlock.
use crate::io::*;
use bytes::{Buf, Bytes};
use http::{Method, Request, Response, Version};
use http_body::{Body, Frame};
use http_body_util::{BodyExt, Empty, Full};
use hyper::body::Incoming;
use shuttle::future::block_on;
use shuttle::thread;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

pub type BoxErr = Box<dyn std::error::Error + Send + Sync>;
pub struct Scen {
    pub name: &'static str,
    pub run: fn(),
    /// deviation bound for quick, thorough
    pub b: (usize, usize),
}

thread_local! { pub static OUT: std::cell::RefCell<std::collections::BTreeSet<String>> = Default::default(); }
fn outcome(s: impl Into<String>) {
    OUT.with(|o| {
        o.borrow_mut().insert(s.into());
    });
}

/// a body that is produced on another thread: frames come through a channel
pub struct ChanBody(hsync::futures_channel::mpsc::UnboundedReceiver<Result<Frame<Bytes>, BoxErr>>);
impl Body for ChanBody {
    type Data = Bytes;
    type Error = BoxErr;
    fn poll_frame(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<Bytes>, BoxErr>>> {
        use futures_core::Stream;
        Pin::new(&mut self.0).poll_next(cx)
    }
}
pub type BTx = hsync::futures_channel::mpsc::UnboundedSender<Result<Frame<Bytes>, BoxErr>>;
pub fn chan() -> (BTx, ChanBody) {
    let (a, b) = hsync::futures_channel::mpsc::unbounded();
    (a, ChanBody(b))
}

#[derive(Clone)]
pub struct Exec;
impl<F> hyper::rt::Executor<F> for Exec
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    fn execute(&self, fut: F) {
        thread::spawn(move || {
            block_on(fut);
        });
    }
}

fn read_all(b: Incoming) -> Result<(Vec<u8>, Option<http::HeaderMap>), hyper::Error> {
    block_on(async move {
        let mut b = b;
        let mut v = vec![];
        let mut t = None;
        while let Some(f) = b.frame().await {
            match f?.into_data() {
                Ok(d) => v.extend_from_slice(&d),
                Err(f) => t = f.into_trailers().ok(),
            }
        }
        Ok((v, t))
    })
}
fn get(p: &str) -> Request<Empty<Bytes>> {
    Request::get(p).header("host", "a").body(Empty::new()).unwrap()
}

// ---------------------------------------------------------------- HTTP/1 client
type H1Tx<B> = hyper::client::conn::http1::SendRequest<B>;
fn h1c<B>(steps: Vec<St>) -> (H1Tx<B>, thread::JoinHandle<Result<(), String>>, P)
where
    B: Body + Send + 'static,
    B::Data: Send,
    B::Error: Into<BoxErr>,
{
    let (io, p) = scripted(steps);
    let (tx, conn) = block_on(hyper::client::conn::http1::handshake(io)).unwrap();
    let t = thread::spawn(move || block_on(conn).map_err(|e| format!("{e:?}")));
    (tx, t, p)
}
fn end(t: thread::JoinHandle<Result<(), String>>) -> Result<(), String> {
    t.join().expect("connection thread panicked")
}

fn c1_get() {
    let (mut tx, t, _) = h1c(vec![St::Wait("\r\n\r\n", 1), send("HTTP/1.1 200 OK\r\ncontent-length: 5\r\n\r\nhe"), St::Pend, send("llo"), St::WaitEof, St::Eof]);
    let r = block_on(tx.send_request(get("/"))).expect("response");
    let (b, _) = read_all(r.into_body()).expect("body");
    assert_eq!(b, b"hello");
    drop(tx);
    assert_eq!(end(t), Ok(()));
}
fn c1_chunked() {
    let (mut tx, t, _) = h1c(vec![
        St::Wait("\r\n\r\n", 1),
        send("HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n2\r\nhe\r\n"),
        St::Pend,
        send("3\r\nllo\r\n0\r\n"),
        St::Pend,
        send("x-t: 1\r\n\r\n"),
        St::WaitEof,
        St::Eof,
    ]);
    let r = block_on(tx.send_request(get("/"))).expect("response");
    let (b, tr) = read_all(r.into_body()).expect("body");
    assert_eq!(b, b"hello");
    assert_eq!(tr.expect("trailers")["x-t"], "1");
    drop(tx);
    assert_eq!(end(t), Ok(()));
}
fn c1_two() {
    let (mut tx, t, p) = h1c(vec![
        St::Wait("\r\n\r\n", 1),
        send("HTTP/1.1 200 OK\r\ncontent-length: 2\r\n\r\nab"),
        St::Wait("\r\n\r\n", 2),
        send("HTTP/1.1 200 OK\r\ncontent-length: 2\r\n\r\ncd"),
        St::WaitEof,
        St::Eof,
    ]);
    for w in ["ab", "cd"] {
        block_on(tx.ready()).expect("ready");
        let r = block_on(tx.send_request(get("/"))).expect("response");
        let (b, _) = read_all(r.into_body()).expect("body");
        assert_eq!(b, w.as_bytes());
    }
    drop(tx);
    assert_eq!(end(t), Ok(()));
    assert_eq!(p.out().matches("GET / ").count(), 2);
}
/// two requests without waiting for readiness in between
fn c1_eager() {
    let (mut tx, t, p) = h1c(vec![
        St::Wait("\r\n\r\n", 1),
        send("HTTP/1.1 200 OK\r\ncontent-length: 2\r\n\r\nab"),
        St::Wait("\r\n\r\n", 2),
        send("HTTP/1.1 200 OK\r\ncontent-length: 2\r\n\r\ncd"),
        St::WaitEof,
        St::Eof,
    ]);
    let f1 = tx.try_send_request(get("/1"));
    let f2 = tx.try_send_request(get("/2"));
    let u = thread::spawn(move || block_on(f1).map(|r| read_all(r.into_body()).expect("body 1").0));
    let r2 = block_on(f2);
    match r2 {
        Ok(r) => {
            assert_eq!(read_all(r.into_body()).expect("body 2").0, b"cd");
            outcome("second sent");
        }
        Err(e) => {
            let (e, m) = (format!("{e:?}"), e.into_message());
            assert!(m.is_some(), "an unsent request was not given back: {e}");
            outcome("second refused");
        }
    }
    assert_eq!(u.join().unwrap().expect("first response"), b"ab");
    drop(tx);
    end(t).expect("connection");
    assert!(p.out().matches("GET /1 ").count() == 1);
}
trait IntoMsg<T> {
    fn into_message(self) -> Option<T>;
}
impl<T> IntoMsg<T> for hyper::client::conn::TrySendError<T> {
    fn into_message(mut self) -> Option<T> {
        self.take_message()
    }
}
/// `ready` may still say yes while the connection is going away on the other thread; a request is refused all the same
fn dead(tx: &mut H1Tx<Empty<Bytes>>) {
    if block_on(tx.ready()).is_ok() {
        outcome("ready for a moment");
        match block_on(tx.try_send_request(get("/dead"))) {
            Ok(_) => panic!("a response came from nowhere"),
            Err(e) => assert!(e.into_message().is_some(), "an unsent request was not given back"),
        }
        assert!(block_on(tx.ready()).is_err(), "ready on a dead connection");
    }
}
/// the connection is dropped while a request is being sent
fn c1_dropconn() {
    let (io, p) = scripted(vec![St::Wait("\r\n\r\n", 1), send("HTTP/1.1 200 OK\r\ncontent-length: 2\r\n\r\na"), St::Pend, send("b")]);
    let (mut tx, conn) = block_on(hyper::client::conn::http1::handshake(io)).unwrap();
    let t = thread::spawn(move || {
        let mut conn = Box::pin(conn);
        for _ in 0..2 {
            if block_on(poll_fn(|cx| Poll::Ready(conn.as_mut().poll(cx)))).is_ready() {
                return;
            }
            hsync::pt();
        }
        drop(conn);
    });
    let r = block_on(tx.try_send_request(get("/")));
    match r {
        Ok(r) => match read_all(r.into_body()) {
            Ok((b, _)) => {
                assert_eq!(b, b"ab");
                outcome("whole");
            }
            Err(_) => outcome("body cut"),
        },
        Err(e) => {
            let w = p.out().contains("GET");
            let m = e.into_message().is_some();
            assert!(m || w, "an unsent request was not given back");
            assert!(!(m && w), "a request that was written was given back");
            outcome(format!("error back={m}"));
        }
    }
    dead(&mut tx);
    t.join().unwrap();
    assert!(tx.is_closed());
}
/// the peer closes an idle connection while a request is being sent
fn c1_peerclose() {
    let (mut tx, t, p) = h1c(vec![St::Pend, St::Eof]);
    match block_on(tx.try_send_request(get("/"))) {
        Ok(_) => panic!("a response came from nowhere"),
        Err(e) => {
            let w = p.out().contains("GET");
            let m = e.into_message().is_some();
            assert!(m || w, "an unsent request was not given back");
            assert!(!(m && w), "a request that was written was given back");
            outcome(format!("back={m}"));
        }
    }
    dead(&mut tx);
    let _ = end(t);
    assert!(block_on(tx.ready()).is_err());
    assert!(tx.is_closed());
}
/// the caller drops the response body midway; the connection must not hang
fn c1_dropbody() {
    let (mut tx, t, p) = h1c(vec![
        St::Wait("\r\n\r\n", 1),
        send("HTTP/1.1 200 OK\r\ncontent-length: 6\r\n\r\nab"),
        St::Pend,
        send("cd"),
        St::Pend,
        send("ef"),
        St::Wait("\r\n\r\n", 2),
        send("HTTP/1.1 200 OK\r\ncontent-length: 2\r\n\r\ngh"),
        St::WaitEof,
        St::Eof,
    ]);
    let r = block_on(tx.send_request(get("/"))).expect("response");
    let mut b = r.into_body();
    let f = block_on(b.frame());
    assert!(f.is_some());
    drop(b);
    match block_on(tx.ready()) {
        Ok(()) => {
            match block_on(tx.try_send_request(get("/2"))) {
                Ok(r) => {
                    assert_eq!(read_all(r.into_body()).expect("second body").0, b"gh");
                    outcome("reused");
                }
                Err(e) => {
                    assert!(e.into_message().is_some() || p.out().matches("GET").count() == 2);
                    outcome("not reused late");
                }
            }
        }
        Err(_) => outcome("closed"),
    }
    drop(tx);
    let _ = end(t);
}
/// the caller drops the response future; the connection ends once the handle is gone
fn c1_cancel() {
    let (mut tx, t, p) = h1c(vec![St::Wait("\r\n\r\n", 1), send("HTTP/1.1 200 OK\r\ncontent-length: 2\r\n\r\na"), St::Pend, send("b"), St::WaitEof, St::Eof]);
    let mut f = Box::pin(tx.send_request(get("/")));
    let done = block_on(poll_fn(|cx| Poll::Ready(f.as_mut().poll(cx).is_ready())));
    drop(f);
    drop(tx);
    let r = end(t);
    outcome(format!("{done} {} {}", r.is_ok(), p.out().contains("GET")));
}
/// the caller waits on another thread than the one that drops the handle
fn c1_drophandle() {
    let (mut tx, t, _) = h1c(vec![St::Wait("\r\n\r\n", 1), send("HTTP/1.1 200 OK\r\ncontent-length: 2\r\n\r\na"), St::Pend, send("b"), St::WaitEof, St::Eof]);
    let f = tx.send_request(get("/"));
    let u = thread::spawn(move || {
        let r = block_on(f).expect("response");
        read_all(r.into_body()).expect("body").0
    });
    drop(tx);
    assert_eq!(u.join().unwrap(), b"ab");
    assert_eq!(end(t), Ok(()));
}
/// the request body comes from another thread
fn c1_upload() {
    let (mut tx, t, p) = h1c::<ChanBody>(vec![St::Wait("0\r\n\r\n", 1), send("HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n"), St::WaitEof, St::Eof]);
    let (btx, body) = chan();
    let u = thread::spawn(move || {
        btx.unbounded_send(Ok(Frame::data(Bytes::from_static(b"abc")))).unwrap();
        hsync::pt();
        btx.unbounded_send(Ok(Frame::data(Bytes::from_static(b"de")))).unwrap();
    });
    block_on(tx.send_request(Request::post("/").body(body).unwrap())).expect("response");
    u.join().unwrap();
    assert!(p.out().ends_with("3\r\nabc\r\n2\r\nde\r\n0\r\n\r\n"), "{}", p.out());
    drop(tx);
    assert_eq!(end(t), Ok(()));
}
/// response early, before the request body has ended on another thread
fn c1_early() {
    let (mut tx, t, p) = h1c::<ChanBody>(vec![
        St::Wait("\r\n\r\n", 1),
        send("HTTP/1.1 200 OK\r\ncontent-length: 2\r\n\r\n"),
        St::Pend,
        send("ok"),
        St::Wait("GET /2", 1),
        send("HTTP/1.1 200 OK\r\ncontent-length: 1\r\n\r\n2"),
        St::WaitEof,
        St::Eof,
    ]);
    let (btx, body) = chan();
    let u = thread::spawn(move || {
        let _ = btx.unbounded_send(Ok(Frame::data(Bytes::from_static(b"abc"))));
        hsync::pt();
        let _ = btx.unbounded_send(Ok(Frame::data(Bytes::from_static(b"de"))));
    });
    let r = block_on(tx.send_request(Request::post("/").body(body).unwrap())).expect("response");
    assert_eq!(read_all(r.into_body()).expect("body").0, b"ok");
    u.join().unwrap();
    match block_on(tx.ready()) {
        Ok(()) => {
            // it may be ready ahead of time: the second request waits its turn then
            let r = block_on(tx.send_request(Request::get("/2").body(chan().1).unwrap())).expect("second response");
            assert_eq!(read_all(r.into_body()).expect("second body").0, b"2");
            let o = p.out();
            assert!(o.find("0\r\n\r\n").unwrap() < o.find("GET /2").unwrap(), "{o}");
            outcome("reusable");
        }
        Err(_) => outcome("closed"),
    }
    drop(tx);
    let _ = end(t);
}
/// truncated response: the reader on the other thread sees an error, never a clean end
fn c1_trunc() {
    let (mut tx, t, _) = h1c(vec![St::Wait("\r\n\r\n", 1), send("HTTP/1.1 200 OK\r\ncontent-length: 5\r\n\r\nhe"), St::Pend, St::Eof]);
    let r = block_on(tx.send_request(get("/"))).expect("response");
    assert!(read_all(r.into_body()).is_err(), "a cut body ended cleanly");
    drop(tx);
    let _ = end(t);
}
/// body delimited by close
fn c1_close() {
    let (mut tx, t, _) = h1c(vec![St::Wait("\r\n\r\n", 1), send("HTTP/1.1 200 OK\r\n\r\nhe"), St::Pend, send("llo"), St::Pend, St::Eof]);
    let r = block_on(tx.send_request(get("/"))).expect("response");
    assert_eq!(read_all(r.into_body()).expect("body").0, b"hello");
    dead(&mut tx);
    drop(tx);
    assert_eq!(end(t), Ok(()));
}
fn up_rw(u: hyper::upgrade::Upgraded, w: &'static [u8]) -> Vec<u8> {
    use hyper::rt::{Read, Write};
    block_on(async move {
        let mut u = u;
        let mut n = 0;
        while n < w.len() {
            n += poll_fn(|cx| Pin::new(&mut u).poll_write(cx, &w[n..])).await.expect("tunnel write");
        }
        poll_fn(|cx| Pin::new(&mut u).poll_flush(cx)).await.expect("tunnel flush");
        let mut got = vec![];
        loop {
            let mut a = [0u8; 16];
            let mut rb = hyper::rt::ReadBuf::new(&mut a);
            poll_fn(|cx| Pin::new(&mut u).poll_read(cx, rb.unfilled())).await.expect("tunnel read");
            if rb.filled().is_empty() {
                break;
            }
            got.extend_from_slice(rb.filled());
        }
        poll_fn(|cx| Pin::new(&mut u).poll_shutdown(cx)).await.expect("tunnel shutdown");
        got
    })
}
fn c1_upgrade() {
    let (io, p) = scripted(vec![
        St::Wait("\r\n\r\n", 1),
        send("HTTP/1.1 101 Switching Protocols\r\nconnection: upgrade\r\nupgrade: x\r\n\r\nhe"),
        St::Wait("ping", 1),
        send("llo"),
        St::Pend,
        St::Eof,
    ]);
    let (mut tx, conn) = block_on(hyper::client::conn::http1::handshake(io)).unwrap();
    let t = thread::spawn(move || block_on(conn.with_upgrades()).map_err(|e| format!("{e:?}")));
    let r = block_on(tx.send_request(Request::get("/").header("connection", "upgrade").header("upgrade", "x").body(Empty::<Bytes>::new()).unwrap())).expect("response");
    assert_eq!(r.status(), 101);
    let u = block_on(hyper::upgrade::on(r)).expect("upgrade");
    assert_eq!(up_rw(u, b"ping"), b"hello");
    assert_eq!(end(t), Ok(()));
    assert!(p.out().ends_with("ping"));
    drop(tx);
}
/// a connection run without upgrade support tells the waiting side
fn c1_noupgrade() {
    let (io, _p) = scripted(vec![St::Wait("\r\n\r\n", 1), send("HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n"), St::WaitEof, St::Eof]);
    let (mut tx, conn) = block_on(hyper::client::conn::http1::handshake(io)).unwrap();
    let t = thread::spawn(move || block_on(conn.with_upgrades()).map_err(|e| format!("{e:?}")));
    let r = block_on(tx.send_request(Request::get("/").header("connection", "upgrade").header("upgrade", "x").body(Empty::<Bytes>::new()).unwrap())).expect("response");
    assert!(block_on(hyper::upgrade::on(r)).is_err(), "no upgrade happened");
    drop(tx);
    assert_eq!(end(t), Ok(()));
}

// ---------------------------------------------------------------- HTTP/1 server
type Hand = (Request<Incoming>, hsync::tokio_sync::oneshot::Sender<Response<Full<Bytes>>>);
/// a server whose handler runs on another thread: requests are handed over and responses handed back
fn h1s(steps: Vec<St>, upgrades: bool) -> (hsync::tokio_sync::mpsc::UnboundedReceiver<Hand>, thread::JoinHandle<Result<(), String>>, P) {
    let (io, p) = scripted(steps);
    let (tx, rx) = hsync::tokio_sync::mpsc::unbounded_channel::<Hand>();
    let t = thread::spawn(move || {
        let svc = hyper::service::service_fn(move |r: Request<Incoming>| {
            let (a, b) = hsync::tokio_sync::oneshot::channel();
            let _ = tx.send((r, a));
            async move { b.await.map_err(|_| BoxErr::from("handler gone")) }
        });
        let conn = hyper::server::conn::http1::Builder::new().serve_connection(io, svc);
        if upgrades { block_on(conn.with_upgrades()) } else { block_on(conn) }.map_err(|e| format!("{e:?}"))
    });
    (rx, t, p)
}
fn next(rx: &mut hsync::tokio_sync::mpsc::UnboundedReceiver<Hand>) -> Option<Hand> {
    block_on(poll_fn(|cx| rx.poll_recv(cx)))
}
fn ok(s: &'static str) -> Response<Full<Bytes>> {
    Response::new(Full::new(Bytes::from_static(s.as_bytes())))
}
fn s1_body() {
    let (mut rx, t, p) = h1s(vec![send("POST / HTTP/1.1\r\nhost: a\r\ncontent-length: 6\r\n\r\nab"), St::Pend, send("cd"), St::Pend, send("ef"), St::Wait("\r\n\r\nok", 1), St::Eof], false);
    let (r, a) = next(&mut rx).expect("request");
    assert_eq!(read_all(r.into_body()).expect("body").0, b"abcdef");
    a.send(ok("ok")).unwrap();
    assert!(next(&mut rx).is_none());
    assert_eq!(end(t), Ok(()));
    assert!(p.out().ends_with("ok"));
}
fn s1_chunked() {
    let (mut rx, t, _) = h1s(
        vec![
            send("POST / HTTP/1.1\r\nhost: a\r\ntransfer-encoding: chunked\r\n\r\n2\r\nab\r\n"),
            St::Pend,
            send("2\r\ncd\r\n0\r\nx-t: 1"),
            St::Pend,
            send("\r\n\r\n"),
            St::Wait("\r\n\r\nok", 1),
            send("GET /2 HTTP/1.1\r\nhost: a\r\n\r\n"),
            St::Wait("\r\n\r\nok", 2),
            St::Eof,
        ],
        false,
    );
    let (r, a) = next(&mut rx).expect("request");
    let (b, tr) = read_all(r.into_body()).expect("body");
    assert_eq!(b, b"abcd");
    assert_eq!(tr.expect("trailers")["x-t"], "1");
    a.send(ok("ok")).unwrap();
    let (r, a) = next(&mut rx).expect("second request");
    assert_eq!(read_all(r.into_body()).expect("body").0, b"");
    a.send(ok("ok")).unwrap();
    assert!(next(&mut rx).is_none());
    assert_eq!(end(t), Ok(()));
}
/// the peer sends the body only once told to: the handler's interest must reach the connection
fn s1_expect() {
    let (mut rx, t, p) = h1s(
        vec![send("POST / HTTP/1.1\r\nhost: a\r\nexpect: 100-continue\r\ncontent-length: 4\r\n\r\n"), St::Wait("100 Continue\r\n\r\n", 1), send("abcd"), St::Wait("\r\n\r\nok", 1), St::Eof],
        false,
    );
    let (r, a) = next(&mut rx).expect("request");
    assert_eq!(read_all(r.into_body()).expect("body").0, b"abcd");
    a.send(ok("ok")).unwrap();
    assert!(next(&mut rx).is_none());
    assert_eq!(end(t), Ok(()));
    assert_eq!(p.out().matches("100 Continue").count(), 1);
}
/// the handler answers without ever asking for the body
fn s1_expect_no() {
    let (mut rx, t, p) = h1s(vec![send("POST / HTTP/1.1\r\nhost: a\r\nexpect: 100-continue\r\ncontent-length: 4\r\n\r\n"), St::Wait("\r\n\r\nok", 1), St::WaitEof, St::Eof], false);
    let (r, a) = next(&mut rx).expect("request");
    drop(r);
    a.send(ok("ok")).unwrap();
    assert!(next(&mut rx).is_none());
    assert_eq!(end(t), Ok(()));
    assert_eq!(p.out().matches("100 Continue").count(), 0);
}
/// the handler drops the body midway, on its own thread, and answers
fn s1_bodydrop() {
    let (mut rx, t, _) = h1s(
        vec![
            send("POST / HTTP/1.1\r\nhost: a\r\ncontent-length: 6\r\n\r\nab"),
            St::Pend,
            send("cd"),
            St::Pend,
            send("ef"),
            St::Wait("\r\n\r\nok", 1),
            send("GET /2 HTTP/1.1\r\nhost: a\r\n\r\n"),
            St::WaitEof,
            St::Eof,
        ],
        false,
    );
    let (r, a) = next(&mut rx).expect("request");
    let mut b = r.into_body();
    assert!(block_on(b.frame()).is_some());
    let u = thread::spawn(move || drop(b));
    a.send(ok("ok")).unwrap();
    match next(&mut rx) {
        Some((r, a)) => {
            assert_eq!(r.uri(), "/2");
            outcome("kept");
            let mut re = ok("ok");
            re.headers_mut().insert("connection", "close".parse().unwrap());
            a.send(re).unwrap();
        }
        None => outcome("closed"),
    }
    u.join().unwrap();
    assert_eq!(end(t), Ok(()));
}
/// a body cut by the peer: the handler's thread sees an error
fn s1_trunc() {
    let (mut rx, t, _) = h1s(vec![send("POST / HTTP/1.1\r\nhost: a\r\ncontent-length: 6\r\n\r\nab"), St::Pend, send("cd"), St::Pend, St::Eof], false);
    let (r, a) = next(&mut rx).expect("request");
    assert!(read_all(r.into_body()).is_err(), "a cut body ended cleanly");
    let _ = a.send(ok("ok"));
    let _ = end(t);
}
/// the connection is dropped while the handler's thread reads
fn s1_dropconn() {
    let (io, _p) = scripted(vec![send("POST / HTTP/1.1\r\nhost: a\r\ncontent-length: 6\r\n\r\nab"), St::Pend, send("cd"), St::Pend, send("ef")]);
    let (tx, mut rx) = hsync::tokio_sync::mpsc::unbounded_channel::<Hand>();
    let t = thread::spawn(move || {
        let svc = hyper::service::service_fn(move |r: Request<Incoming>| {
            let (a, b) = hsync::tokio_sync::oneshot::channel();
            let _ = tx.send((r, a));
            async move { b.await.map_err(|_| BoxErr::from("handler gone")) }
        });
        let mut conn = Box::pin(hyper::server::conn::http1::Builder::new().serve_connection(io, svc));
        for _ in 0..3 {
            if block_on(poll_fn(|cx| Poll::Ready(conn.as_mut().poll(cx)))).is_ready() {
                return;
            }
            hsync::pt();
        }
        drop(conn);
    });
    let Some((r, _a)) = next(&mut rx) else { return };
    match read_all(r.into_body()) {
        Ok((b, _)) => {
            assert_eq!(b, b"abcdef");
            outcome("whole");
        }
        Err(_) => outcome("cut"),
    }
    t.join().unwrap();
}
fn s1_upgrade() {
    let (mut rx, t, p) = h1s(
        vec![send("GET / HTTP/1.1\r\nhost: a\r\nconnection: upgrade\r\nupgrade: x\r\n\r\nhe"), St::Wait("ping", 1), send("llo"), St::Pend, St::Eof],
        true,
    );
    let (r, a) = next(&mut rx).expect("request");
    let f = hyper::upgrade::on(r);
    let u = thread::spawn(move || {
        let u = block_on(f).expect("upgrade");
        up_rw(u, b"ping")
    });
    a.send(Response::builder().status(101).header("connection", "upgrade").header("upgrade", "x").body(Full::default()).unwrap()).unwrap();
    assert_eq!(u.join().unwrap(), b"hello");
    assert_eq!(end(t), Ok(()));
    assert!(p.out().contains("101 Switching") && p.out().ends_with("\r\n\r\nping"));
}
/// the side that waits for the upgrade goes away
fn s1_updrop() {
    let (mut rx, t, _) = h1s(vec![send("GET / HTTP/1.1\r\nhost: a\r\nconnection: upgrade\r\nupgrade: x\r\n\r\n"), St::Pend, St::Eof], true);
    let (r, a) = next(&mut rx).expect("request");
    let f = hyper::upgrade::on(r);
    let u = thread::spawn(move || drop(f));
    let _ = a.send(Response::builder().status(101).header("connection", "upgrade").header("upgrade", "x").body(Full::default()).unwrap());
    u.join().unwrap();
    let _ = end(t);
}
/// response body from another thread
fn s1_stream() {
    let (io, p) = scripted(vec![send("GET / HTTP/1.1\r\nhost: a\r\n\r\n"), St::Wait("0\r\n\r\n", 1), St::Eof]);
    let (btx, body) = chan();
    let slot = Arc::new(Mutex::new(Some(body)));
    let t = thread::spawn(move || {
        let svc = hyper::service::service_fn(move |_r: Request<Incoming>| {
            let b = slot.lock().unwrap().take().unwrap();
            async move { Ok::<_, BoxErr>(Response::new(b)) }
        });
        block_on(hyper::server::conn::http1::Builder::new().serve_connection(io, svc)).map_err(|e| format!("{e:?}"))
    });
    btx.unbounded_send(Ok(Frame::data(Bytes::from_static(b"abc")))).unwrap();
    hsync::pt();
    btx.unbounded_send(Ok(Frame::data(Bytes::from_static(b"de")))).unwrap();
    drop(btx);
    assert_eq!(end(t), Ok(()));
    assert!(p.out().ends_with("3\r\nabc\r\n2\r\nde\r\n0\r\n\r\n"), "{}", p.out());
}

// ---------------------------------------------------------------- HTTP/2
type H2Tx<B> = hyper::client::conn::http2::SendRequest<B>;
struct H2<B> {
    tx: H2Tx<B>,
    conn: thread::JoinHandle<Result<(), String>>,
    srv: thread::JoinHandle<Result<(), String>>,
}
impl<B> H2<B> {
    fn end(self) {
        drop(self.tx);
        assert_eq!(end(self.conn), Ok(()), "client connection");
        assert_eq!(end(self.srv), Ok(()), "server connection");
    }
}
fn h2<B, F, R, SB>(f: F) -> H2<B>
where
    B: Body + Send + Unpin + 'static,
    B::Data: Send,
    B::Error: Into<BoxErr>,
    F: Fn(Request<Incoming>) -> R + Send + 'static,
    R: Future<Output = Result<Response<SB>, BoxErr>> + Send + 'static,
    SB: Body + Send + 'static,
    SB::Data: Send,
    SB::Error: Into<BoxErr>,
{
    h2w(None, f)
}
fn h2w<B, F, R, SB>(win: Option<u32>, f: F) -> H2<B>
where
    B: Body + Send + Unpin + 'static,
    B::Data: Send,
    B::Error: Into<BoxErr>,
    F: Fn(Request<Incoming>) -> R + Send + 'static,
    R: Future<Output = Result<Response<SB>, BoxErr>> + Send + 'static,
    SB: Body + Send + 'static,
    SB::Data: Send,
    SB::Error: Into<BoxErr>,
{
    let (a, b) = duplex();
    let srv = thread::spawn(move || {
        let c = hyper::server::conn::http2::Builder::new(Exec).initial_stream_window_size(win).serve_connection(b, hyper::service::service_fn(f));
        block_on(c).map_err(|e| format!("{e:?}"))
    });
    let (tx, conn) = block_on(hyper::client::conn::http2::Builder::new(Exec).handshake(a)).expect("handshake");
    let conn = thread::spawn(move || block_on(conn).map_err(|e| format!("{e:?}")));
    H2 { tx, conn, srv }
}
fn h2req<B>(b: B) -> Request<B> {
    Request::builder().version(Version::HTTP_2).method("POST").uri("http://a/").body(b).unwrap()
}
async fn collect<B: Body + Unpin>(mut b: B) -> Result<Vec<u8>, B::Error> {
    let mut v = vec![];
    while let Some(f) = b.frame().await {
        if let Ok(mut d) = f?.into_data() {
            while d.has_remaining() {
                let c = d.chunk();
                v.extend_from_slice(c);
                let n = c.len();
                d.advance(n);
            }
        }
    }
    Ok(v)
}
fn b2_get() {
    let mut h = h2::<Empty<Bytes>, _, _, _>(|_r| async { Ok(ok("hello")) });
    let r = block_on(h.tx.send_request(h2req(Empty::new()))).expect("response");
    assert_eq!(block_on(collect(r.into_body())).expect("body"), b"hello");
    h.end();
}
fn b2_echo() {
    let mut h = h2::<ChanBody, _, _, _>(|r: Request<Incoming>| async { Ok(Response::new(r.into_body())) });
    let (btx, body) = chan();
    let u = thread::spawn(move || {
        let _ = btx.unbounded_send(Ok(Frame::data(Bytes::from_static(b"abc"))));
        hsync::pt();
        let _ = btx.unbounded_send(Ok(Frame::data(Bytes::from_static(b"de"))));
    });
    let r = block_on(h.tx.send_request(h2req(body))).expect("response");
    assert_eq!(block_on(collect(r.into_body())).expect("body"), b"abcde");
    u.join().unwrap();
    h.end();
}
/// the caller drops the response body / the response future at any moment
fn b2_cancel() {
    let mut h = h2::<Empty<Bytes>, _, _, _>(|_r| async { Ok(ok("hello")) });
    let mut f = Box::pin(h.tx.send_request(h2req(Empty::new())));
    let done = block_on(poll_fn(|cx| Poll::Ready(f.as_mut().poll(cx).is_ready())));
    drop(f);
    outcome(format!("{done}"));
    h.end();
}
fn b2_dropbody() {
    let mut h = h2::<Empty<Bytes>, _, _, _>(|_r| async { Ok(ok("hello")) });
    let r = block_on(h.tx.send_request(h2req(Empty::new()))).expect("response");
    drop(r);
    h.end();
}
/// two callers share the connection
fn b2_two() {
    let mut h = h2::<Empty<Bytes>, _, _, _>(|_r| async { Ok(ok("hello")) });
    let mut tx2 = h.tx.clone();
    let u = thread::spawn(move || {
        let r = block_on(tx2.send_request(h2req(Empty::new()))).expect("response");
        assert_eq!(block_on(collect(r.into_body())).expect("body"), b"hello");
    });
    let r = block_on(h.tx.send_request(h2req(Empty::new()))).expect("response");
    assert_eq!(block_on(collect(r.into_body())).expect("body"), b"hello");
    u.join().unwrap();
    h.end();
}
/// the last handle goes away while a response is under way
fn b2_drophandle() {
    let H2 { mut tx, conn, srv } = h2::<Empty<Bytes>, _, _, _>(|_r| async { Ok(ok("hello")) });
    let f = tx.send_request(h2req(Empty::new()));
    let u = thread::spawn(move || {
        let r = block_on(f).expect("response");
        assert_eq!(block_on(collect(r.into_body())).expect("body"), b"hello");
    });
    drop(tx);
    u.join().unwrap();
    assert_eq!(end(conn), Ok(()));
    assert_eq!(end(srv), Ok(()));
}
fn connect() -> Request<Empty<Bytes>> {
    Request::builder().version(Version::HTTP_2).method(Method::CONNECT).uri("a:1").body(Empty::new()).unwrap()
}
/// a tunnel between two threads, each side writing, reading to the end and closing
fn b2_tunnel() {
    let (gtx, got) = hsync::tokio_sync::oneshot::channel();
    let g2 = Arc::new(Mutex::new(Some(gtx)));
    let mut h = h2::<Empty<Bytes>, _, _, _>(move |r: Request<Incoming>| {
        let g2 = g2.clone();
        async move {
            let f = hyper::upgrade::on(r);
            thread::spawn(move || {
                let u = block_on(f).expect("server upgrade");
                let v = tun(u, b"pong", true);
                let tx = g2.lock().unwrap().take().unwrap();
                tx.send(v).unwrap();
            });
            Ok(Response::new(Empty::<Bytes>::new()))
        }
    });
    let r = block_on(h.tx.send_request(connect())).expect("response");
    assert_eq!(r.status(), 200);
    let u = block_on(hyper::upgrade::on(r)).expect("client upgrade");
    assert_eq!(tun(u, b"ping", false), b"pong");
    h.end();
    assert_eq!(block_on(got).expect("server side"), b"ping");
}
/// writes, closes its own direction (first or last), reads to the end
fn tun(u: hyper::upgrade::Upgraded, w: &'static [u8], read_first: bool) -> Vec<u8> {
    use hyper::rt::{Read, Write};
    block_on(async move {
        let mut u = u;
        let mut got = vec![];
        for ph in 0..2 {
            if (ph == 0) == read_first {
                loop {
                    let mut a = [0u8; 16];
                    let mut rb = hyper::rt::ReadBuf::new(&mut a);
                    poll_fn(|cx| Pin::new(&mut u).poll_read(cx, rb.unfilled())).await.expect("tunnel read");
                    if rb.filled().is_empty() {
                        break;
                    }
                    got.extend_from_slice(rb.filled());
                }
            } else {
                let mut n = 0;
                while n < w.len() {
                    n += poll_fn(|cx| Pin::new(&mut u).poll_write(cx, &w[n..])).await.expect("tunnel write");
                }
                poll_fn(|cx| Pin::new(&mut u).poll_flush(cx)).await.expect("tunnel flush");
                poll_fn(|cx| Pin::new(&mut u).poll_shutdown(cx)).await.expect("tunnel shutdown");
            }
        }
        got
    })
}
/// one side drops its end after writing: the other reads what was written and then the end
fn b2_tunneldrop() {
    let (gtx, got) = hsync::tokio_sync::oneshot::channel();
    let g2 = Arc::new(Mutex::new(Some(gtx)));
    let mut h = h2::<Empty<Bytes>, _, _, _>(move |r: Request<Incoming>| {
        let g2 = g2.clone();
        async move {
            let f = hyper::upgrade::on(r);
            thread::spawn(move || {
                use hyper::rt::Read;
                let v = block_on(async move {
                    let mut u = f.await.expect("server upgrade");
                    let mut got = vec![];
                    loop {
                        let mut a = [0u8; 16];
                        let mut rb = hyper::rt::ReadBuf::new(&mut a);
                        if poll_fn(|cx| Pin::new(&mut u).poll_read(cx, rb.unfilled())).await.is_err() || rb.filled().is_empty() {
                            break;
                        }
                        got.extend_from_slice(rb.filled());
                    }
                    got
                });
                let v = v;
                let tx = g2.lock().unwrap().take().unwrap();
                tx.send(v).unwrap();
            });
            Ok(Response::new(Empty::<Bytes>::new()))
        }
    });
    let r = block_on(h.tx.send_request(connect())).expect("response");
    let mut u = block_on(hyper::upgrade::on(r)).expect("client upgrade");
    use hyper::rt::Write;
    let n = block_on(poll_fn(|cx| Pin::new(&mut u).poll_write(cx, b"ping"))).expect("tunnel write");
    assert_eq!(n, 4);
    drop(u);
    h.end();
    assert_eq!(block_on(got).expect("server side"), b"ping");
}
/// a tunnel whose window is full when its writer writes once more and drops it: everything written arrives
fn b2_tunnelfull() {
    crate::sched::setup(true);
    let (gtx, got) = hsync::tokio_sync::oneshot::channel();
    let g2 = Arc::new(Mutex::new(Some(gtx)));
    let mut h = h2w::<Empty<Bytes>, _, _, _>(Some(4), move |r: Request<Incoming>| {
        let g2 = g2.clone();
        async move {
            if r.method() != Method::CONNECT {
                return Ok(Response::new(Empty::<Bytes>::new()));
            }
            let f = hyper::upgrade::on(r);
            thread::spawn(move || {
                use hyper::rt::Read;
                let v = block_on(async move {
                    let mut u = f.await.expect("server upgrade");
                    let mut got = vec![];
                    loop {
                        let mut a = [0u8; 16];
                        let mut rb = hyper::rt::ReadBuf::new(&mut a);
                        if poll_fn(|cx| Pin::new(&mut u).poll_read(cx, rb.unfilled())).await.is_err() || rb.filled().is_empty() {
                            break;
                        }
                        got.extend_from_slice(rb.filled());
                    }
                    got
                });
                let tx = g2.lock().unwrap().take().unwrap();
                tx.send(v).unwrap();
            });
            Ok(Response::new(Empty::<Bytes>::new()))
        }
    });
    // the server's settings are known once a response has come
    block_on(h.tx.send_request(h2req(Empty::new()))).expect("first response");
    let r = block_on(h.tx.send_request(connect())).expect("response");
    let u = block_on(hyper::upgrade::on(r)).expect("client upgrade");
    crate::sched::setup(false);
    block_on(async move {
        use hyper::rt::Write;
        let mut u = u;
        for w in [&b"aaaa"[..], b"bb"] {
            let mut n = 0;
            while n < w.len() {
                n += poll_fn(|cx| Pin::new(&mut u).poll_write(cx, &w[n..])).await.expect("tunnel write");
            }
        }
        drop(u);
    });
    h.end();
    assert_eq!(block_on(got).expect("server side"), b"aaaabb");
}
/// shutting down a tunnel whose window is full completes although the window never opens
fn tunnelshut(early: bool) {
    crate::sched::setup(true);
    let (gtx, got) = hsync::tokio_sync::oneshot::channel();
    let g2 = Arc::new(Mutex::new(Some(gtx)));
    let (ctx, crx) = hsync::tokio_sync::oneshot::channel::<()>();
    let c2 = Arc::new(Mutex::new(Some(crx)));
    let mut h = h2w::<Empty<Bytes>, _, _, _>(Some(4), move |r: Request<Incoming>| {
        let (g2, c2) = (g2.clone(), c2.clone());
        async move {
            if r.method() != Method::CONNECT {
                return Ok(Response::new(Empty::<Bytes>::new()));
            }
            let f = hyper::upgrade::on(r);
            thread::spawn(move || {
                let mut u = block_on(f).expect("server upgrade");
                // wait for data without taking any: the window stays closed
                block_on(poll_fn(|cx| hyper::rt::Read::poll_read(Pin::new(&mut u), cx, hyper::rt::ReadBuf::new(&mut []).unfilled()))).expect("read");
                block_on(poll_fn(|cx| hyper::rt::Write::poll_write(Pin::new(&mut u), cx, b"k"))).expect("write");
                let go = c2.lock().unwrap().take().unwrap();
                let _ = block_on(go);
                let v = drain(u);
                let tx = g2.lock().unwrap().take().unwrap();
                tx.send(v).unwrap();
            });
            Ok(Response::new(Empty::<Bytes>::new()))
        }
    });
    block_on(h.tx.send_request(h2req(Empty::new()))).expect("first response");
    let r = block_on(h.tx.send_request(connect())).expect("response");
    let u = block_on(hyper::upgrade::on(r)).expect("client upgrade");
    let mut u = u;
    if early {
        crate::sched::setup(false);
    }
    let n = block_on(poll_fn(|cx| hyper::rt::Write::poll_write(Pin::new(&mut u), cx, b"aaaa"))).expect("tunnel write");
    assert_eq!(n, 4);
    assert_eq!(one(&mut u), b'k');
    crate::sched::setup(false);
    // on a thread of its own: nothing but the tunnel can wake it
    let t = thread::spawn(move || {
        block_on(poll_fn(|cx| hyper::rt::Write::poll_shutdown(Pin::new(&mut u), cx))).expect("tunnel shutdown");
        u
    });
    let u = t.join().unwrap();
    drop(u);
    drop(ctx);
    h.end();
    assert_eq!(block_on(got).expect("server side"), b"aaaa");
}
fn b2_tunnelshut() {
    tunnelshut(false)
}
/// the same with the write that fills the window left to the scheduler too
fn b2_tunnelshut3() {
    tunnelshut(true)
}
/// shutting down a tunnel whose window is full right after the write that fills it
fn b2_tunnelshut2() {
    crate::sched::setup(true);
    tunnelshut2();
}
/// the same with the set-up left to the scheduler too
fn b2_tunnelshut4() {
    tunnelshut2();
}
fn tunnelshut2() {
    let (gtx, got) = hsync::tokio_sync::oneshot::channel();
    let g2 = Arc::new(Mutex::new(Some(gtx)));
    let (ctx, crx) = hsync::tokio_sync::oneshot::channel::<()>();
    let c2 = Arc::new(Mutex::new(Some(crx)));
    let mut h = h2w::<Empty<Bytes>, _, _, _>(Some(4), move |r: Request<Incoming>| {
        let (g2, c2) = (g2.clone(), c2.clone());
        async move {
            if r.method() != Method::CONNECT {
                return Ok(Response::new(Empty::<Bytes>::new()));
            }
            let f = hyper::upgrade::on(r);
            thread::spawn(move || {
                let u = block_on(f).expect("server upgrade");
                let go = c2.lock().unwrap().take().unwrap();
                let _ = block_on(go);
                let v = drain(u);
                let tx = g2.lock().unwrap().take().unwrap();
                tx.send(v).unwrap();
            });
            Ok(Response::new(Empty::<Bytes>::new()))
        }
    });
    block_on(h.tx.send_request(h2req(Empty::new()))).expect("first response");
    let r = block_on(h.tx.send_request(connect())).expect("response");
    let u = block_on(hyper::upgrade::on(r)).expect("client upgrade");
    crate::sched::setup(false);
    let mut u = u;
    let n = block_on(poll_fn(|cx| hyper::rt::Write::poll_write(Pin::new(&mut u), cx, b"aaaa"))).expect("tunnel write");
    assert_eq!(n, 4);
    // on a thread of its own: nothing but the tunnel can wake it
    let t = thread::spawn(move || {
        block_on(poll_fn(|cx| hyper::rt::Write::poll_shutdown(Pin::new(&mut u), cx))).expect("tunnel shutdown");
        u
    });
    let u = t.join().unwrap();
    drop(u);
    drop(ctx);
    h.end();
    assert_eq!(block_on(got).expect("server side"), b"aaaa");
}
fn one(u: &mut hyper::upgrade::Upgraded) -> u8 {
    use hyper::rt::Read;
    let mut a = [0u8; 1];
    let mut rb = hyper::rt::ReadBuf::new(&mut a);
    block_on(poll_fn(|cx| Pin::new(&mut *u).poll_read(cx, rb.unfilled()))).expect("tunnel read");
    rb.filled()[0]
}
/// the reader drops the tunnel while the writer is writing: the writer gets an error or finishes, and everything ends
fn b2_tunnelpeer() {
    let mut h = h2::<Empty<Bytes>, _, _, _>(move |r: Request<Incoming>| async move {
        let f = hyper::upgrade::on(r);
        thread::spawn(move || drop(block_on(f).expect("server upgrade")));
        Ok(Response::new(Empty::<Bytes>::new()))
    });
    let r = block_on(h.tx.send_request(connect())).expect("response");
    let u = block_on(hyper::upgrade::on(r)).expect("client upgrade");
    let n = block_on(async move {
        use hyper::rt::Write;
        let mut u = u;
        for i in 0..40 {
            if poll_fn(|cx| Pin::new(&mut u).poll_write(cx, &[b'x'; 4096])).await.is_err() {
                return i;
            }
        }
        let _ = poll_fn(|cx| Pin::new(&mut u).poll_shutdown(cx)).await;
        99
    });
    outcome(if n == 99 { "all written" } else { "error" });
    h.end();
}

/// runs a connection until it ends, or drops it after `n` polls
fn part<C: Future>(c: C, n: usize) -> bool {
    let mut c = Box::pin(c);
    let mut i = 0;
    // every poll is driven by a wake-up, except the last: the task is dropped right after it
    let r = block_on(poll_fn(move |cx| {
        if i == n {
            return Poll::Ready(false);
        }
        i += 1;
        if c.as_mut().poll(cx).is_ready() {
            return Poll::Ready(true);
        }
        if i == n {
            cx.waker().wake_by_ref();
        }
        Poll::Pending
    }));
    r
}
/// the client's connection is dropped at some point of an exchange: the caller gets an answer or an error, nobody hangs
fn dropconn(n: usize) {
    let (a, b) = duplex();
    let srv = thread::spawn(move || {
        let c = hyper::server::conn::http2::Builder::new(Exec).serve_connection(b, hyper::service::service_fn(|_r| async { Ok::<_, BoxErr>(ok("hello")) }));
        let _ = block_on(c);
    });
    let (mut tx, conn) = block_on(hyper::client::conn::http2::Builder::new(Exec).handshake::<_, Full<Bytes>>(a)).expect("handshake");
    let t = thread::spawn(move || part(conn, n));
    match block_on(tx.try_send_request(h2req(Full::new(Bytes::from_static(b"abc"))))) {
        Ok(r) => match block_on(collect(r.into_body())) {
            Ok(b) => {
                assert_eq!(b, b"hello");
                outcome("whole");
            }
            Err(_) => outcome("cut"),
        },
        Err(e) => outcome(format!("error back={}", e.into_msg())),
    }
    let _ = block_on(tx.ready());
    drop(tx);
    outcome(format!("ended={}", t.join().unwrap()));
    srv.join().unwrap();
}
trait IntoMsg2 {
    fn into_msg(self) -> bool;
}
impl<T> IntoMsg2 for hyper::client::conn::TrySendError<T> {
    fn into_msg(mut self) -> bool {
        self.take_message().is_some()
    }
}
fn b2_dropconn1() {
    dropconn(1)
}
fn b2_dropconn3() {
    dropconn(3)
}
/// the server's connection is dropped at some point
fn b2_srvdrop() {
    let (a, b) = duplex();
    let srv = thread::spawn(move || {
        let c = hyper::server::conn::http2::Builder::new(Exec).serve_connection(b, hyper::service::service_fn(|r: Request<Incoming>| async { Ok::<_, BoxErr>(Response::new(r.into_body())) }));
        part(c, 4);
    });
    let (mut tx, conn) = block_on(hyper::client::conn::http2::Builder::new(Exec).handshake::<_, Full<Bytes>>(a)).expect("handshake");
    let t = thread::spawn(move || {
        let _ = block_on(conn);
    });
    match block_on(tx.send_request(h2req(Full::new(Bytes::from_static(b"abc"))))) {
        Ok(r) => match block_on(collect(r.into_body())) {
            Ok(b) => {
                assert_eq!(b, b"abc");
                outcome("whole");
            }
            Err(_) => outcome("cut"),
        },
        Err(_) => outcome("error"),
    }
    drop(tx);
    t.join().unwrap();
    srv.join().unwrap();
}
/// a graceful shutdown asked for by another thread: what was accepted is answered, then both connections end
fn b2_shutdown() {
    let (a, b) = duplex();
    let (stx, srx) = hsync::tokio_sync::oneshot::channel::<()>();
    let srv = thread::spawn(move || {
        let mut c = Box::pin(hyper::server::conn::http2::Builder::new(Exec).serve_connection(b, hyper::service::service_fn(|_r| async { Ok::<_, BoxErr>(ok("hello")) })));
        let mut srx = Some(srx);
        block_on(poll_fn(move |cx| {
            if let Some(s) = &mut srx {
                if Pin::new(s).poll(cx).is_ready() {
                    srx = None;
                    c.as_mut().graceful_shutdown();
                }
            }
            c.as_mut().poll(cx)
        }))
        .map_err(|e| format!("{e:?}"))
    });
    let (mut tx, conn) = block_on(hyper::client::conn::http2::Builder::new(Exec).handshake::<_, Empty<Bytes>>(a)).expect("handshake");
    let t = thread::spawn(move || block_on(conn).map_err(|e| format!("{e:?}")));
    let u = thread::spawn(move || drop(stx));
    match block_on(tx.send_request(h2req(Empty::new()))) {
        Ok(r) => {
            assert_eq!(block_on(collect(r.into_body())).expect("body of an accepted request"), b"hello");
            outcome("answered");
        }
        Err(_) => outcome("refused"),
    }
    u.join().unwrap();
    assert_eq!(end(srv), Ok(()), "server");
    // the server has gone: the client's connection ends although the handle is still there
    let r = end(t);
    outcome(format!("client {}", r.is_ok()));
    assert!(block_on(tx.ready()).is_err());
}
/// both sides measure the bandwidth: the shared ping state is used by the body's thread and by the connection's
fn b2_bdp() {
    let (a, b) = duplex();
    let srv = thread::spawn(move || {
        let c = hyper::server::conn::http2::Builder::new(Exec).adaptive_window(true).serve_connection(b, hyper::service::service_fn(|r: Request<Incoming>| async { Ok::<_, BoxErr>(Response::new(r.into_body())) }));
        block_on(c).map_err(|e| format!("{e:?}"))
    });
    let (mut tx, conn) = block_on(hyper::client::conn::http2::Builder::new(Exec).adaptive_window(true).handshake::<_, Full<Bytes>>(a)).expect("handshake");
    let t = thread::spawn(move || block_on(conn).map_err(|e| format!("{e:?}")));
    let r = block_on(tx.send_request(h2req(Full::new(Bytes::from_static(b"abc"))))).expect("response");
    assert_eq!(block_on(collect(r.into_body())).expect("body"), b"abc");
    drop(tx);
    assert_eq!(end(t), Ok(()));
    assert_eq!(end(srv), Ok(()));
}
/// the handler drops the request body, on its own thread, while it is being uploaded from another one
fn b2_refuse() {
    let mut h = h2::<ChanBody, _, _, _>(|r: Request<Incoming>| async {
        thread::spawn(move || drop(r));
        Ok(ok("no"))
    });
    let (btx, body) = chan();
    let u = thread::spawn(move || {
        for _ in 0..2 {
            let _ = btx.unbounded_send(Ok(Frame::data(Bytes::from_static(b"abc"))));
            hsync::pt();
        }
    });
    let r = block_on(h.tx.send_request(h2req(body))).expect("response");
    assert_eq!(block_on(collect(r.into_body())).expect("body"), b"no");
    u.join().unwrap();
    h.end();
}
/// an upload larger than the window, read on the handler's own thread
fn b2_window() {
    crate::sched::setup(true);
    let (gtx, got) = hsync::tokio_sync::oneshot::channel();
    let g2 = Arc::new(Mutex::new(Some(gtx)));
    let mut h = h2w::<Full<Bytes>, _, _, _>(Some(4), move |r: Request<Incoming>| {
        let g2 = g2.clone();
        async move {
            if r.uri().path() == "/up" {
                thread::spawn(move || {
                    let v = block_on(collect(r.into_body())).expect("upload");
                    let tx = g2.lock().unwrap().take().unwrap();
                    tx.send(v).unwrap();
                });
            }
            Ok(ok("ok"))
        }
    });
    block_on(h.tx.send_request(h2req(Full::default()))).expect("first response");
    crate::sched::setup(false);
    let mut q = h2req(Full::new(Bytes::from_static(b"abcdefgh")));
    *q.uri_mut() = "http://a/up".parse().unwrap();
    let r = block_on(h.tx.send_request(q)).expect("response");
    assert_eq!(block_on(got).expect("server side"), b"abcdefgh");
    assert_eq!(block_on(collect(r.into_body())).expect("body"), b"ok");
    h.end();
}
/// the client's connection is dropped while a tunnel is in use: reader and writer end
fn b2_tunnelconn() {
    let (a, b) = duplex();
    let srv = thread::spawn(move || {
        let c = hyper::server::conn::http2::Builder::new(Exec).serve_connection(
            b,
            hyper::service::service_fn(|r: Request<Incoming>| async {
                let f = hyper::upgrade::on(r);
                thread::spawn(move || {
                    if let Ok(u) = block_on(f) {
                        drain(u);
                    }
                });
                Ok::<_, BoxErr>(Response::new(Empty::<Bytes>::new()))
            }),
        );
        let _ = block_on(c);
    });
    let (mut tx, conn) = block_on(hyper::client::conn::http2::Builder::new(Exec).handshake::<_, Empty<Bytes>>(a)).expect("handshake");
    let (dtx, drx) = hsync::tokio_sync::oneshot::channel::<()>();
    let t = thread::spawn(move || {
        let mut c = Box::pin(conn);
        let mut drx = drx;
        block_on(poll_fn(move |cx| {
            if Pin::new(&mut drx).poll(cx).is_ready() {
                return Poll::Ready(());
            }
            c.as_mut().poll(cx).map(|_| ())
        }))
    });
    let r = block_on(tx.send_request(connect())).expect("response");
    let u = block_on(hyper::upgrade::on(r)).expect("client upgrade");
    let w = thread::spawn(move || drop(dtx));
    block_on(async move {
        use hyper::rt::Write;
        let mut u = u;
        for _ in 0..2 {
            if poll_fn(|cx| Pin::new(&mut u).poll_write(cx, b"x")).await.is_err() {
                outcome("write error");
                return;
            }
        }
        outcome("written");
        let _ = poll_fn(|cx| Pin::new(&mut u).poll_shutdown(cx)).await;
    });
    w.join().unwrap();
    drop(tx);
    t.join().unwrap();
    srv.join().unwrap();
}
fn drain(u: hyper::upgrade::Upgraded) -> Vec<u8> {
    use hyper::rt::Read;
    block_on(async move {
        let mut u = u;
        let mut got = vec![];
        loop {
            let mut a = [0u8; 16];
            let mut rb = hyper::rt::ReadBuf::new(&mut a);
            if poll_fn(|cx| Pin::new(&mut u).poll_read(cx, rb.unfilled())).await.is_err() || rb.filled().is_empty() {
                break;
            }
            got.extend_from_slice(rb.filled());
        }
        got
    })
}
/// a shutdown asked for by another thread on an HTTP/1 server connection
fn s1_shutdown() {
    let (io, p) = scripted(vec![send("GET / HTTP/1.1\r\nhost: a\r\n\r\n"), St::Pend, St::WaitEof, St::Eof]);
    let (stx, srx) = hsync::tokio_sync::oneshot::channel::<()>();
    let (tx, mut rx) = hsync::tokio_sync::mpsc::unbounded_channel::<Hand>();
    let t = thread::spawn(move || {
        let svc = hyper::service::service_fn(move |r: Request<Incoming>| {
            let (a, b) = hsync::tokio_sync::oneshot::channel();
            let _ = tx.send((r, a));
            async move { b.await.map_err(|_| BoxErr::from("handler gone")) }
        });
        let mut c = Box::pin(hyper::server::conn::http1::Builder::new().serve_connection(io, svc));
        let mut srx = Some(srx);
        block_on(poll_fn(move |cx| {
            if let Some(s) = &mut srx {
                if Pin::new(s).poll(cx).is_ready() {
                    srx = None;
                    c.as_mut().graceful_shutdown();
                }
            }
            c.as_mut().poll(cx)
        }))
        .map_err(|e| format!("{e:?}"))
    });
    let u = thread::spawn(move || drop(stx));
    if let Some((_r, a)) = next(&mut rx) {
        a.send(ok("ok")).expect("the connection went away under an accepted request");
        outcome("answered");
        assert_eq!(end(t), Ok(()));
        assert!(p.out().ends_with("ok"), "{}", p.out());
    } else {
        outcome("refused");
        assert_eq!(end(t), Ok(()));
        assert_eq!(p.out(), "");
    }
    u.join().unwrap();
}
/// informational responses and the final one
fn c1_info() {
    let (mut tx, t, _) = h1c(vec![St::Wait("\r\n\r\n", 1), send("HTTP/1.1 103 Early Hints\r\n\r\n"), St::Pend, send("HTTP/1.1 204 No Content\r\n\r\n"), St::WaitEof, St::Eof]);
    let n = Arc::new(shuttle::sync::atomic::AtomicUsize::new(0));
    let n2 = n.clone();
    let mut q = get("/");
    hyper::ext::on_informational(&mut q, move |_| {
        n2.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    });
    let r = block_on(tx.send_request(q)).expect("response");
    assert_eq!(r.status(), 204);
    assert_eq!(n.load(std::sync::atomic::Ordering::SeqCst), 1);
    drop(tx);
    assert_eq!(end(t), Ok(()));
}

pub fn all() -> Vec<Scen> {
    macro_rules! s { ($($n:ident $q:expr, $t:expr;)*) => { vec![$(Scen { name: stringify!($n), run: $n, b: ($q, $t) }),*] } }
    s! {
        c1_get 3, 5;
        c1_chunked 3, 5;
        c1_two 3, 5;
        c1_eager 3, 5;
        c1_dropconn 3, 5;
        c1_peerclose 3, 5;
        c1_dropbody 3, 5;
        c1_cancel 3, 5;
        c1_drophandle 3, 5;
        c1_upload 3, 5;
        c1_early 3, 5;
        c1_trunc 3, 5;
        c1_close 3, 5;
        c1_upgrade 3, 5;
        c1_noupgrade 3, 5;
        s1_body 3, 5;
        s1_chunked 3, 5;
        s1_expect 3, 5;
        s1_expect_no 3, 5;
        s1_bodydrop 3, 5;
        s1_trunc 3, 5;
        s1_dropconn 3, 5;
        s1_upgrade 3, 5;
        s1_updrop 3, 5;
        s1_stream 3, 5;
        s1_shutdown 3, 5;
        c1_info 3, 5;
        b2_get 2, 2;
        b2_echo 1, 2;
        b2_cancel 2, 3;
        b2_dropbody 2, 2;
        b2_two 1, 2;
        b2_drophandle 2, 2;
        b2_tunnel 1, 2;
        b2_tunneldrop 1, 2;
        b2_tunnelpeer 1, 2;
        b2_tunnelfull 2, 2;
        b2_tunnelshut 2, 3;
        b2_tunnelshut2 2, 2;
        b2_tunnelshut3 1, 2;
        b2_tunnelshut4 2, 2;
        b2_dropconn1 2, 2;
        b2_dropconn3 2, 2;
        b2_srvdrop 2, 2;
        b2_shutdown 2, 3;
        b2_bdp 1, 2;
        b2_refuse 1, 2;
        b2_window 2, 2;
        b2_tunnelconn 1, 2;
    }
}
