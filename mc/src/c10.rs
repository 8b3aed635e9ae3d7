//! C10: HTTP/1 upgrades hand over every byte, once, in order.

use crate::core::*;
use crate::h1cli::{self, call, CliCfg, Outcome, Take};
use crate::h1ref;
use crate::h1srv::{self, errinfo, Beh, Consume, ErrInfo, OnUp, RespSpec, SrvCfg};
use crate::world::*;
use hyper::rt::{Read, ReadBuf, Write};
use std::cell::RefCell;
use std::future::poll_fn;
use std::pin::Pin;
use std::rc::Rc;

/// What the user does with the upgraded stream.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Use {
    /// write, then read to the end with buffers of that size, then write again, then shut down
    Rw(usize),
    /// read to the end, then write
    ReadFirst(usize),
    /// the same, with a read into an empty buffer before each read
    Empty(usize),
    /// write with vectored writes
    Vectored,
    /// take it apart: the buffered bytes first, then the transport itself
    Downcast,
    /// drop it at once
    Drop,
    /// never await the upgrade future
    Ignore,
    /// await the upgrade future late
    Late,
    /// drop the upgrade future at once
    Forget,
}
#[derive(Default)]
struct Rec {
    taken: bool,
    res: Option<Result<(), ErrInfo>>,
    read: Vec<u8>,
    eof: bool,
    wrote: Vec<u8>,
    shut: bool,
    err: Option<String>,
    done: bool,
}
type R = Rc<RefCell<Rec>>;

struct NotIo;
impl Read for NotIo {
    fn poll_read(self: Pin<&mut Self>, _: &mut std::task::Context<'_>, _: hyper::rt::ReadBufCursor<'_>) -> std::task::Poll<std::io::Result<()>> {
        unreachable!()
    }
}
impl Write for NotIo {
    fn poll_write(self: Pin<&mut Self>, _: &mut std::task::Context<'_>, _: &[u8]) -> std::task::Poll<std::io::Result<usize>> {
        unreachable!()
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        unreachable!()
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        unreachable!()
    }
}

async fn write_all<W: Write + Unpin>(w: &mut W, b: &[u8], vectored: bool, rec: &R) -> std::io::Result<()> {
    let mut at = 0;
    while at < b.len() {
        let n = poll_fn(|cx| {
            if vectored {
                let mid = at + (b.len() - at) / 2;
                let bufs = [std::io::IoSlice::new(&b[at..mid]), std::io::IoSlice::new(&b[mid..])];
                Pin::new(&mut *w).poll_write_vectored(cx, &bufs)
            } else {
                Pin::new(&mut *w).poll_write(cx, &b[at..])
            }
        })
        .await?;
        if n == 0 {
            return Err(std::io::ErrorKind::WriteZero.into());
        }
        rec.borrow_mut().wrote.extend_from_slice(&b[at..at + n]);
        at += n;
    }
    poll_fn(|cx| Pin::new(&mut *w).poll_flush(cx)).await
}
async fn read_all<T: Read + Unpin>(r: &mut T, size: usize, empty: bool, rec: &R) -> std::io::Result<()> {
    loop {
        if empty {
            poll_fn(|cx| {
                let mut b = ReadBuf::new(&mut []);
                match Pin::new(&mut *r).poll_read(cx, b.unfilled()) {
                    std::task::Poll::Ready(Err(e)) => std::task::Poll::Ready(Err(e)),
                    _ => std::task::Poll::Ready(Ok(())),
                }
            })
            .await?;
        }
        let mut store = vec![0u8; size];
        let n = poll_fn(|cx| {
            let mut b = ReadBuf::new(&mut store);
            match Pin::new(&mut *r).poll_read(cx, b.unfilled()) {
                std::task::Poll::Ready(Ok(())) => std::task::Poll::Ready(Ok(b.filled().len())),
                std::task::Poll::Ready(Err(e)) => std::task::Poll::Ready(Err(e)),
                std::task::Poll::Pending => std::task::Poll::Pending,
            }
        })
        .await?;
        if n == 0 {
            rec.borrow_mut().eof = true;
            return Ok(());
        }
        rec.borrow_mut().read.extend_from_slice(&store[..n]);
    }
}
fn on_up(env: &E, how: Use, rec: &R) -> OnUp {
    let (env, rec) = (env.clone(), rec.clone());
    Rc::new(move |on| {
        let (env, rec) = (env.clone(), rec.clone());
        Box::pin(async move {
            rec.borrow_mut().taken = true;
            if how == Use::Forget {
                drop(on);
                rec.borrow_mut().done = true;
                return;
            }
            if how == Use::Ignore {
                let _k = on;
                return std::future::pending().await;
            }
            if how == Use::Late {
                wait_event(&env, "upgrade awaited").await;
            }
            let up = on.await;
            env.ch.log(|| format!("  upgrade future: {up:?}"));
            env.ch.step(mix(up.is_ok() as u64, 77));
            let mut up = match up {
                Ok(u) => u,
                Err(e) => {
                    let mut r = rec.borrow_mut();
                    r.res = Some(Err(errinfo(&e)));
                    r.done = true;
                    return;
                }
            };
            rec.borrow_mut().res = Some(Ok(()));
            let r: std::io::Result<()> = async {
                match how {
                    Use::Ignore | Use::Forget => {}
                    Use::Drop => drop(up),
                    Use::Rw(n) => {
                        write_all(&mut up, b"pong", false, &rec).await?;
                        read_all(&mut up, n, matches!(how, Use::Empty(_)), &rec).await?;
                        write_all(&mut up, b"bye", false, &rec).await?;
                        poll_fn(|cx| Pin::new(&mut up).poll_shutdown(cx)).await?;
                        rec.borrow_mut().shut = true;
                    }
                    Use::ReadFirst(n) | Use::Empty(n) => {
                        read_all(&mut up, n, matches!(how, Use::Empty(_)), &rec).await?;
                        write_all(&mut up, b"pong", false, &rec).await?;
                    }
                    Use::Vectored | Use::Late => {
                        write_all(&mut up, b"pongpong", true, &rec).await?;
                        read_all(&mut up, 5, false, &rec).await?;
                    }
                    Use::Downcast => {
                        let up = match up.downcast::<NotIo>() {
                            Ok(_) => return Err(std::io::Error::other("downcast to a foreign type")),
                            Err(u) => u,
                        };
                        let mut p = match up.downcast::<HIo>() {
                            Ok(p) => p,
                            Err(_) => return Err(std::io::Error::other("downcast to the transport failed")),
                        };
                        rec.borrow_mut().read.extend_from_slice(&p.read_buf);
                        write_all(&mut p.io, b"pong", false, &rec).await?;
                        read_all(&mut p.io, 4, false, &rec).await?;
                    }
                }
                Ok(())
            }
            .await;
            let mut m = rec.borrow_mut();
            m.err = r.err().map(|e| e.to_string());
            m.done = true;
        }) as LocalFut
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Drive {
    Upgrades,
    /// plain connection future: upgrades are not supported
    Plain,
    /// poll_without_shutdown, then into_parts
    Manual,
}

// ---------------------------------------------------------------- server

#[derive(Clone, Debug)]
struct Sv {
    /// complete requests before
    pre: &'static str,
    req: &'static str,
    /// bytes after the request, sent before any answer
    surplus: &'static str,
    /// bytes sent after the answer was seen
    later: &'static str,
    status: u16,
    consume: Consume,
    body: &'static str,
    how: Use,
    drive: Drive,
    opts: u8,
    kill: bool,
    graceful: bool,
    pol: IoPolicy,
}
fn run_srv(ch: &Ch, x: &Sv) -> ExecResult {
    let rec: R = Default::default();
    let connect = x.req.starts_with("CONNECT");
    let accept = x.status == 101 || connect && x.status / 100 == 2;
    let mut resp = RespSpec::ok(x.body);
    resp.status = x.status;
    if x.status == 101 {
        resp.headers = vec![("connection", b"upgrade"), ("upgrade", b"foo")];
    }
    let npre = x.pre.matches("HTTP/1.1\r\n").count();
    let mut behs: Vec<Beh> = (0..npre).map(|_| Beh::simple("pre")).collect();
    let mut up = Beh::simple("").consume(x.consume.clone()).resp(resp);
    up.upgrade = true;
    up.delay = x.opts & 8 != 0;
    behs.push(up);
    let mut cfg = SrvCfg::new(behs).pol(x.pol);
    cfg.default = Beh::simple("next");
    cfg.upgrades = x.drive == Drive::Upgrades;
    cfg.manual = x.drive == Drive::Manual;
    let opts = x.opts;
    cfg = cfg.tweak(move |b, _| {
        if opts & 1 != 0 {
            b.pipeline_flush(true);
        }
        if opts & 2 != 0 {
            b.keep_alive(false);
        }
        if opts & 4 != 0 {
            b.half_close(true);
        }
    });
    let env0: Rc<RefCell<Option<E>>> = Default::default();
    {
        let (e, how, rec) = (env0.clone(), x.how, rec.clone());
        cfg.on_up = Some(Rc::new(move |on| on_up(e.borrow().as_ref().unwrap(), how, &rec)(on)));
    }
    let mut s = h1srv::start(ch, cfg);
    *env0.borrow_mut() = Some(s.env.clone());
    let head_end = x.pre.len() + x.req.len();
    let wire = [x.pre.as_bytes(), x.req.as_bytes(), x.surplus.as_bytes()].concat();
    // the cut: everything at once, or at any offset from the end of the request on (and a few before)
    let mut cuts = vec![wire.len()];
    cuts.extend([1, head_end.saturating_sub(4), head_end - 1]);
    cuts.extend(head_end..wire.len());
    let cut = cuts[ch.free(cuts.len(), "cut")];
    s.io.push(&wire[..cut]);
    let all_sent: Rc<std::cell::Cell<bool>> = Default::default();
    if cut < wire.len() {
        let (io, rest, sent) = (s.io.clone(), wire[cut..].to_vec(), all_sent.clone());
        s.env.event("rest arrives", move || {
            sent.set(true);
            io.push(&rest)
        });
    } else {
        all_sent.set(true);
    }
    if !x.later.is_empty() {
        let (io, io2, l) = (s.io.clone(), s.io.clone(), x.later);
        let need = if x.status == 101 { "HTTP/1.1 101" } else { "HTTP/1.1 200" };
        s.env.event_when(
            "later bytes arrive",
            false,
            move || {
                let t = io.s.borrow();
                all_sent.get() && t.inbuf.is_empty() && t.out[..t.flushed].windows(need.len()).filter(|w| *w == need.as_bytes()).count() > if need.ends_with("200") { npre } else { 0 }
            },
            move || io2.push(l.as_bytes()),
        );
    }
    if x.kill {
        s.ctl.arm_kill(&s.env);
    }
    if x.graceful {
        s.ctl.arm_graceful(&s.env);
    }
    let mut livelock = s.w.run() == RunEnd::StepLimit;
    let mid_done = s.w.is_done(s.conn);
    let mid_shut = s.io.s.borrow().shut;
    s.io.push_eof();
    livelock |= s.w.run() == RunEnd::StepLimit;
    let out = s.io.out();
    let r = rec.borrow();
    let killed = s.ctl.0.killed.get();
    let gr = s.ctl.0.graceful.get();
    let desc = || format!("{x:?}\ncut {cut}\nwire out {:?}\nupgrade {:?}, read {:?} eof {}, wrote {:?}, err {:?}\nresult {:?} killed {killed}\n{}", esc(&out), r.res, esc(&r.read), r.eof, esc(&r.wrote), r.err, s.result.borrow(), s.seen());
    if livelock {
        return viol("livelock", desc());
    }
    if s.io.s.borrow().out_after_shut > 0 {
        return viol("bytes written after the close", desc());
    }
    if !s.w.is_done(s.conn) {
        return viol("connection never finishes", desc());
    }
    let called = s.recs.borrow().len() > npre;
    if called != r.taken && !killed {
        return viol("no upgrade future", desc());
    }
    // where the answer's head ends on the wire
    let marker: &[u8] = b"\r\n\r\n";
    let (pre, tail) = {
        // the answers to the requests before
        let mut at = 0;
        if npre > 0 {
            at = out.windows(3).position(|w| w == b"pre").map(|p| p + 3).unwrap_or(out.len());
        }
        (if npre == 0 || at == out.len() && !out.ends_with(b"pre") { 0 } else { npre }, out[at..].to_vec())
    };
    let head_end = tail.windows(4).position(|w| w == marker).map(|p| p + 4);
    match x.how {
        Use::Ignore | Use::Forget => {}
        _ => {
            if r.taken && r.res.is_none() {
                return viol("upgrade future never resolves", desc());
            }
            if r.taken && !r.done {
                return viol("upgraded stream blocks forever", desc());
            }
        }
    }
    let upgraded = matches!(r.res, Some(Ok(())));
    if upgraded && (!accept || x.drive != Drive::Upgrades) {
        return viol("upgrade future yields a stream although nothing was upgraded", desc());
    }
    let faultless = !killed;
    if faultless && !(gr && !called) && !(x.opts & 2 != 0 && npre > 0) {
        if !called && !gr {
            return viol("request lost", desc());
        }
        if head_end.is_none() && !gr {
            return viol("response head lost", desc());
        }
        if pre != npre {
            return viol("earlier response lost", desc());
        }
        if called && accept && x.drive == Drive::Upgrades && x.consume == Consume::Full && !matches!(x.how, Use::Ignore | Use::Forget) && !upgraded {
            return viol("accepted upgrade does not resolve with the stream", desc());
        }
    }
    if called && accept && x.status == 101 {
        if let Some(h) = head_end {
            let st = h1ref::responses(&tail[..h], &["GET".into()], true);
            if let Some((_, m)) = st.msgs.first() {
                let c: Vec<String> = m.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case("connection")).map(|(_, v)| String::from_utf8_lossy(v).to_lowercase()).collect();
                if !c.iter().any(|v| v.split(',').any(|t| t.trim() == "upgrade")) {
                    return viol("101 without the user's Connection: upgrade", desc());
                }
                if !m.headers.iter().any(|(n, _)| n.eq_ignore_ascii_case("upgrade")) {
                    return viol("101 without the user's Upgrade", desc());
                }
            }
        }
    }
    let all_after: Vec<u8> = [x.surplus.as_bytes(), if s.io.unread() + s.io.s.borrow().nread > wire.len() { x.later.as_bytes() } else { b"" }].concat();
    if upgraded {
        let Some(h) = head_end else { return viol("upgraded without a complete answer on the wire", desc()) };
        if tail[h..] != r.wrote[..] {
            return viol("bytes on the wire after the answer are not what was written to the stream", desc());
        }
        if r.eof && x.consume == Consume::Full && r.read != all_after {
            return viol("upgraded stream does not yield the peer's bytes", format!("expected {:?}\n{}", esc(&all_after), desc()));
        }
        // an unread request body comes before the new protocol
        if r.eof && !r.read.ends_with(x.surplus.as_bytes()) && x.later.is_empty() {
            return viol("upgraded stream loses the peer's bytes", desc());
        }
        if r.err.is_some() {
            return viol("upgraded stream fails", desc());
        }
        if mid_done && mid_shut && !r.shut {
            return viol("transport shut down although it was upgraded", desc());
        }
    } else if accept && called && faultless {
        // nothing follows the head
        if let Some(h) = head_end {
            if tail.len() > h && x.drive != Drive::Manual {
                return viol("bytes after the answer to an upgrade", desc());
            }
        }
        if x.drive == Drive::Manual {
            let p = s.parts.borrow();
            let Some((_, buf)) = p.as_ref() else { return viol("no parts", desc()) };
            let io: Vec<u8> = s.io.s.borrow().inbuf.iter().copied().collect();
            let left = [&buf[..], &io[..]].concat();
            if mid_shut {
                return viol("transport shut down by poll_without_shutdown", desc());
            }
            if x.consume == Consume::Full && s.result.borrow().as_ref().is_some_and(|r| r.is_ok()) && left != all_after {
                return viol("taking the connection apart loses the unread bytes", format!("left {:?}, expected {:?}\n{}", esc(&left), esc(&all_after), desc()));
            }
        }
    }
    if !accept && called && faultless && !gr && x.opts & 2 == 0 && !connect {
        // the connection goes on
        let want = x.surplus.matches("HTTP/1.1\r\n").count();
        if s.recs.borrow().len() != npre + 1 + want {
            return viol("connection does not continue after a declined upgrade", desc());
        }
        let st = s.responses();
        if st.msgs.len() < npre + 1 + want {
            return viol("response missing after a declined upgrade", desc());
        }
    }
    Ok(mix(upgraded as u64, out.len() as u64 * 64 + r.read.len() as u64))
}

// ---------------------------------------------------------------- client

#[derive(Clone, Debug)]
struct Cl {
    call: h1cli::Call,
    second: bool,
    resp: &'static str,
    surplus: &'static str,
    accept: bool,
    how: Use,
    drive: Drive,
    /// the peer answers once the head has arrived
    early: bool,
    kill: bool,
    drop_tx: bool,
    pol: IoPolicy,
}
fn run_cli(ch: &Ch, x: &Cl) -> ExecResult {
    let rec: R = Default::default();
    let env0: Rc<RefCell<Option<E>>> = Default::default();
    let mut cfg = CliCfg::new(x.pol);
    cfg.upgrades = x.drive == Drive::Upgrades;
    cfg.manual = x.drive == Drive::Manual;
    {
        let (e, how, rec) = (env0.clone(), x.how, rec.clone());
        cfg.on_up = Some(Rc::new(move |on| on_up(e.borrow().as_ref().unwrap(), how, &rec)(on)));
    }
    let mut c = h1cli::start(ch, cfg);
    *env0.borrow_mut() = Some(c.env.clone());
    c.caller(x.call.clone().upgrade());
    if x.second {
        c.caller(call("GET", "/second").not_ready().recover());
    }
    let wire = [x.resp.as_bytes(), x.surplus.as_bytes()].concat();
    let mut cuts = vec![wire.len(), 1, x.resp.len() - 3];
    cuts.extend(x.resp.len()..wire.len());
    let cut = cuts[ch.free(cuts.len(), "cut")];
    let trig = || if x.early { h1cli::Trig::Heads(1) } else { h1cli::Trig::Reqs(1) };
    let mut acts = vec![h1cli::Act(trig(), h1cli::Do::Send(wire[..cut].to_vec()))];
    if cut < wire.len() {
        acts.push(h1cli::Act(h1cli::Trig::Now, h1cli::Do::Send(wire[cut..].to_vec())));
    }
    c.peer(acts);
    if x.kill {
        c.ctl.arm_kill(&c.env);
    }
    if x.drop_tx {
        let tx = c.tx.clone();
        let t2 = c.tx.clone();
        c.env.event_dev("sender dropped", move || tx.borrow().is_some(), move || drop(t2.borrow_mut().take()));
    }
    let mut livelock = c.w.run() == RunEnd::StepLimit;
    let mid_shut = c.io.s.borrow().shut;
    c.io.push_eof();
    livelock |= c.w.run() == RunEnd::StepLimit;
    c.drop_sender();
    livelock |= c.w.run() == RunEnd::StepLimit;
    let out = c.io.out();
    let r = rec.borrow();
    let killed = c.ctl.0.killed.get();
    let desc = || format!("{x:?}\ncut {cut}\nupgrade {:?}, read {:?} eof {}, wrote {:?}, err {:?} killed {killed}\n{}", r.res, esc(&r.read), r.eof, esc(&r.wrote), r.err, c.summary());
    if livelock {
        return viol("livelock", desc());
    }
    if c.io.s.borrow().out_after_shut > 0 {
        return viol("bytes written after the close", desc());
    }
    if !c.w.is_done(c.conn) {
        return viol("connection never finishes", desc());
    }
    for q in c.recs.borrow().iter() {
        if q.outcomes != 1 {
            return viol("call without exactly one outcome", desc());
        }
    }
    let (ms, _) = c.requests();
    if out.starts_with(b"GET /second") {
        // the other caller came first: not the history of interest
        return Ok(7);
    }
    let sent_all = ms.iter().any(|m| m.b == x.call.uri);
    if r.taken && !matches!(x.how, Use::Ignore | Use::Forget) {
        if r.res.is_none() {
            return viol("upgrade future never resolves", desc());
        }
        if !r.done {
            return viol("upgraded stream blocks forever", desc());
        }
    }
    let upgraded = matches!(r.res, Some(Ok(())));
    if upgraded && (!x.accept || x.drive != Drive::Upgrades) {
        return viol("upgrade future yields a stream although nothing was upgraded", desc());
    }
    let recs = c.recs.borrow();
    if !killed && recs[0].outcome == Outcome::Resp && x.accept && x.drive == Drive::Upgrades && !matches!(x.how, Use::Ignore | Use::Forget) && !upgraded {
        return viol("accepted upgrade does not resolve with the stream", desc());
    }
    if !killed && !(x.drop_tx && !sent_all) && recs[0].outcome != Outcome::Resp {
        return viol("answer to the upgrade request lost", desc());
    }
    if recs[0].outcome == Outcome::Resp {
        let g = recs[0].got.borrow();
        if x.accept && g.end == End::Clean && !g.data.is_empty() {
            return viol("bytes of the new protocol delivered as a response body", desc());
        }
    }
    if x.second && x.accept && !killed && out.windows(7).any(|w| w == b"/second") && recs[0].outcome == Outcome::Resp {
        return viol("request sent on an upgraded connection", desc());
    }
    if upgraded {
        // the request, complete, then what was written to the stream
        let Some(at) = out.len().checked_sub(r.wrote.len()) else { return viol("written bytes lost", desc()) };
        if out[at..] != r.wrote[..] {
            return viol("bytes written to the stream do not come last", desc());
        }
        let (ms, t) = h1ref::requests(&out[..at]);
        if ms.len() != 1 || t != h1ref::Tail::Clean {
            return viol("upgraded before the request was completely sent", format!("{ms:?} {t:?}\n{}", desc()));
        }
        if r.eof && r.read != x.surplus.as_bytes() {
            return viol("upgraded stream does not yield the peer's bytes", desc());
        }
        if r.err.is_some() {
            return viol("upgraded stream fails", desc());
        }
        if mid_shut && !r.shut {
            return viol("transport shut down although it was upgraded", desc());
        }
    } else if x.accept && !killed && x.drive == Drive::Manual && recs[0].outcome == Outcome::Resp {
        let p = c.parts.borrow();
        let Some((_, buf)) = p.as_ref() else { return viol("no parts", desc()) };
        let io: Vec<u8> = c.io.s.borrow().inbuf.iter().copied().collect();
        let left = [&buf[..], &io[..]].concat();
        if left != x.surplus.as_bytes() {
            return viol("taking the connection apart loses the unread bytes", format!("left {:?}\n{}", esc(&left), desc()));
        }
        if mid_shut {
            return viol("transport shut down by poll_without_shutdown", desc());
        }
    }
    Ok(mix(upgraded as u64, out.len() as u64 * 64 + r.read.len() as u64))
}

pub fn check(tier: Tier) -> Check {
    let mut sc = vec![];
    let get = "GET /u HTTP/1.1\r\nHost: h\r\nConnection: upgrade\r\nUpgrade: foo\r\n\r\n";
    let post = "POST /u HTTP/1.1\r\nHost: h\r\nConnection: upgrade\r\nUpgrade: foo\r\nContent-Length: 3\r\n\r\nabc";
    let chunked = "POST /u HTTP/1.1\r\nHost: h\r\nConnection: upgrade\r\nUpgrade: foo\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n";
    let connect = "CONNECT h:1 HTTP/1.1\r\nHost: h:1\r\n\r\n";
    let pre = "GET /pre HTTP/1.1\r\nHost: h\r\n\r\n";
    let next = "GET /next HTTP/1.1\r\nHost: h\r\n\r\n";
    let base = Sv { pre: "", req: get, surplus: "sur\r\nplus", later: "", status: 101, consume: Consume::Full, body: "", how: Use::Rw(3), drive: Drive::Upgrades, opts: 0, kill: false, graceful: false, pol: IoPolicy { read: Cuts::Few, ..IO_ALL } };
    let d = tier.pick(2, 3);
    let mut srv: Vec<(String, u32, Sv)> = vec![];
    for (qn, q, st) in [("get", get, 101u16), ("connect", connect, 200), ("post", post, 101), ("chunked", chunked, 101)] {
        for how in [Use::Rw(1), Use::Rw(64), Use::ReadFirst(3), Use::Empty(4), Use::Vectored, Use::Downcast, Use::Drop, Use::Ignore, Use::Late, Use::Forget] {
            for (dn, drive) in [("up", Drive::Upgrades), ("plain", Drive::Plain), ("parts", Drive::Manual)] {
                if drive != Drive::Upgrades && !matches!(how, Use::Rw(1) | Use::Ignore) {
                    continue;
                }
                for (pn, p, l) in [("alone", "", ""), ("after", pre, "late")] {
                    srv.push((format!("srv/{qn}/{how:?}/{dn}/{pn}"), d, Sv { pre: p, req: q, later: l, status: st, how, drive, ..base.clone() }));
                }
            }
        }
        for opts in 1..16u8 {
            srv.push((format!("srv/{qn}/opts{opts}"), d, Sv { pre: if opts & 2 == 0 { pre } else { "" }, req: q, status: st, opts, graceful: true, ..base.clone() }));
        }
        srv.push((format!("srv/{qn}/graceful"), tier.pick(2, 4), Sv { req: q, status: st, graceful: true, ..base.clone() }));
        srv.push((format!("srv/{qn}/kill"), tier.pick(2, 4), Sv { pre, req: q, status: st, kill: true, ..base.clone() }));
        srv.push((format!("srv/{qn}/declined"), d, Sv { pre, req: q, surplus: next, status: 404, body: "no", ..base.clone() }));
        srv.push((format!("srv/{qn}/declined-kill"), d, Sv { req: q, surplus: next, status: 500, body: "no", kill: true, graceful: true, ..base.clone() }));
        if q != connect {
            srv.push((format!("srv/{qn}/declined200"), d, Sv { req: q, surplus: next, status: 200, body: "no", ..base.clone() }));
        }
        for cm in [Consume::DropFirst, Consume::Ignore, Consume::Frames(1), Consume::Spawned, Consume::SpawnedLate] {
            if q == post || q == chunked {
                srv.push((format!("srv/{qn}/{cm:?}"), d, Sv { req: q, status: st, consume: cm.clone(), ..base.clone() }));
            }
        }
    }
    srv.push(("srv/connect/body".into(), d, Sv { req: connect, status: 200, body: "zzz", ..base.clone() }));
    srv.push(("srv/connect/201".into(), d, Sv { req: connect, status: 201, ..base.clone() }));
    for (n, b, x) in srv {
        sc.push(scenario(n, b, move |ch| run_srv(ch, &x)));
    }
    let mut cli: Vec<(String, u32, Cl)> = vec![];
    let r101 = "HTTP/1.1 101 Switching Protocols\r\nConnection: upgrade\r\nUpgrade: foo\r\n\r\n";
    let up = |m: &'static str| call(m, "/u").header("connection", "upgrade").header("upgrade", "foo");
    let stream = BodySpec { steps: vec![BStep::Data(b"ab".to_vec()), BStep::Pending, BStep::Data(b"cd".to_vec())], hint: Hint::Unknown, eos: false };
    let sized = BodySpec { steps: vec![BStep::Data(b"ab".to_vec()), BStep::Pending, BStep::Data(b"cd".to_vec())], hint: Hint::Exact, eos: true };
    let calls: Vec<(&str, h1cli::Call, &str)> = vec![
        ("get", up("GET"), r101),
        ("get-interim", up("GET"), "HTTP/1.1 103 Early\r\nx: y\r\n\r\nHTTP/1.1 101 Switching Protocols\r\nConnection: upgrade\r\nUpgrade: foo\r\n\r\n"),
        ("get-cl", up("GET"), "HTTP/1.1 101 Switching Protocols\r\nConnection: upgrade\r\nUpgrade: foo\r\nContent-Length: 4\r\n\r\n"),
        ("connect", call("CONNECT", "h:1"), "HTTP/1.1 200 OK\r\n\r\n"),
        ("connect-cl", call("CONNECT", "h:1"), "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"),
        ("connect-te", call("CONNECT", "h:1"), "HTTP/1.1 204 Fine\r\nTransfer-Encoding: chunked\r\n\r\n"),
        ("post", up("POST").body(sized.clone()), r101),
        ("post-stream", up("POST").body(stream.clone()), r101),
    ];
    let base = Cl { call: call("GET", "/"), second: false, resp: r101, surplus: "sur\r\nplus", accept: true, how: Use::Rw(3), drive: Drive::Upgrades, early: false, kill: false, drop_tx: true, pol: IoPolicy { read: Cuts::Few, ..IO_ALL } };
    for (cn, q, resp) in &calls {
        for how in [Use::Rw(1), Use::Rw(64), Use::ReadFirst(3), Use::Empty(4), Use::Vectored, Use::Downcast, Use::Drop, Use::Ignore, Use::Late, Use::Forget] {
            for (dn, drive) in [("up", Drive::Upgrades), ("plain", Drive::Plain), ("parts", Drive::Manual)] {
                if drive != Drive::Upgrades && !matches!(how, Use::Rw(1) | Use::Ignore) {
                    continue;
                }
                cli.push((format!("cli/{cn}/{how:?}/{dn}"), d, Cl { call: q.clone(), resp, how, drive, ..base.clone() }));
            }
        }
        cli.push((format!("cli/{cn}/second"), d, Cl { call: q.clone(), resp, second: true, ..base.clone() }));
        cli.push((format!("cli/{cn}/drop"), d, Cl { call: q.clone().take(Take::Drop), resp, second: true, ..base.clone() }));
        cli.push((format!("cli/{cn}/hold"), d, Cl { call: q.clone().take(Take::Hold), resp, ..base.clone() }));
        cli.push((format!("cli/{cn}/kill"), tier.pick(2, 4), Cl { call: q.clone(), resp, second: true, kill: true, ..base.clone() }));
        if cn.starts_with("post") {
            cli.push((format!("cli/{cn}/early"), d, Cl { call: q.clone(), resp, early: true, ..base.clone() }));
        }
        let no = if cn.starts_with("connect") { "HTTP/1.1 407 No\r\nContent-Length: 2\r\n\r\nno" } else { "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nno" };
        cli.push((format!("cli/{cn}/declined"), d, Cl { call: q.clone(), resp: no, surplus: "", accept: false, ..base.clone() }));
        cli.push((format!("cli/{cn}/declined-eof"), d, Cl { call: q.clone(), resp: "HTTP/1.1 426 No\r\n\r\n", surplus: "no", accept: false, ..base.clone() }));
    }
    for (n, b, x) in cli {
        sc.push(scenario(n, b, move |ch| run_cli(ch, &x)));
    }
    Check {
        id: "C10",
        scenarios: sc,
        rule: "Every cut of the first bytes of the new protocol against the head that grants it, every schedule and transport answer within the bound, every way of using (or not using) the upgrade future and the stream; the bytes read from and written to the stream are compared with the two ends of the wire.".into(),
        assumptions: vec!["hyper's own HIo type stands for any transport".into()],
    }
}
