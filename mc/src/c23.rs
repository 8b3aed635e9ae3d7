//! C23: HTTP/2 CONNECT tunnels are reliable byte pipes.
//!
//! Scripts of writes, flushes, shutdowns, reads and drops on each end of a tunnel: both ends hyper, or one end a raw peer.

use crate::c18::{b, cwin, d, req, resp, Win};
use crate::core::*;
use crate::h1cli::{Call, Outcome, Take};
use crate::h1srv::{Beh, Consume, OnUp, SrvCfg};
use crate::h2ref as r2;
use crate::h2w::*;
use crate::world::*;
use hyper::rt::{Read, ReadBuf, Write};
use hyper::upgrade::Upgraded;
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

#[derive(Clone, Copy, Debug, PartialEq)]
enum W {
    /// write this many bytes, as one chunk per poll
    Put(usize),
    Flush,
    Shut,
    /// wait for a gate
    Wait(u32),
    Open(u32),
    /// write until it fails
    Flood,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum R {
    /// read to the end with a buffer of this size
    All(usize),
    /// the same, only once the gate is open
    Late(u32, usize),
    /// this many bytes, then no more
    Some(usize),
    Never,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fin {
    /// kept until the end of the run
    Hold,
    /// dropped when writer and reader are done
    Both,
    /// dropped when the writer is done
    Writes,
    /// dropped as soon as it is there
    AtOnce,
}
#[derive(Clone, Debug)]
struct Side {
    w: Vec<W>,
    r: R,
    fin: Fin,
}
fn side(w: &[W], r: R, fin: Fin) -> Side {
    Side { w: w.to_vec(), r, fin }
}
#[derive(Default, Debug)]
struct Tun {
    up: Option<Result<(), String>>,
    /// bytes accepted, chunks accepted
    wrote: Vec<u8>,
    chunks: Vec<usize>,
    werr: Option<String>,
    shut: Option<bool>,
    flushed: usize,
    wdone: bool,
    read: Vec<u8>,
    rend: Option<Result<(), String>>,
    rkind: Option<std::io::ErrorKind>,
    rdone: bool,
    dropped: bool,
}
type T = Rc<RefCell<Tun>>;
fn byte(seed: u8, i: usize) -> u8 {
    (i % 251) as u8 ^ seed
}
/// Runs a side's script on whatever the upgrade future yields.
fn tunnel(env: &E, s: &Side, t: &T, seed: u8, name: &'static str) -> OnUp {
    let (env, s, t) = (env.clone(), s.clone(), t.clone());
    Rc::new(move |on| {
        let (env, s, t) = (env.clone(), s.clone(), t.clone());
        Box::pin(async move {
            let u = match on.await {
                Ok(u) => u,
                Err(e) => {
                    env.ch.log(|| format!("  {name}: no tunnel: {e}"));
                    t.borrow_mut().up = Some(Err(e.to_string()));
                    return;
                }
            };
            env.ch.log(|| format!("  {name}: tunnel"));
            t.borrow_mut().up = Some(Ok(()));
            let u: Rc<RefCell<Option<Upgraded>>> = Rc::new(RefCell::new(Some(u)));
            if s.fin == Fin::AtOnce {
                let x = u.borrow_mut().take();
                drop(x);
                let mut t = t.borrow_mut();
                (t.dropped, t.wdone, t.rdone) = (true, true, true);
                return;
            }
            let (e1, s1, t1, u1) = (env.clone(), s.clone(), t.clone(), u.clone());
            env.spawn(format!("{name}-writer"), async move {
                writer(&e1, &s1, &t1, &u1, seed).await;
                t1.borrow_mut().wdone = true;
                fin(&s1, &t1, &u1);
            });
            let (e1, s1, t1, u1) = (env.clone(), s.clone(), t.clone(), u.clone());
            env.spawn(format!("{name}-reader"), async move {
                reader(&e1, &s1, &t1, &u1).await;
                t1.borrow_mut().rdone = true;
                fin(&s1, &t1, &u1);
                if s1.fin == Fin::Hold {
                    let _u = u1;
                    std::future::pending::<()>().await;
                }
            });
        })
    })
}
fn fin(s: &Side, t: &T, u: &Rc<RefCell<Option<Upgraded>>>) {
    let (w, r) = (t.borrow().wdone, t.borrow().rdone);
    if s.fin == Fin::Both && w && r || s.fin == Fin::Writes && w {
        let x = u.borrow_mut().take();
        drop(x);
        t.borrow_mut().dropped = true;
    }
}
async fn writer(env: &E, s: &Side, t: &T, u: &Rc<RefCell<Option<Upgraded>>>, seed: u8) {
    for op in &s.w {
        env.op();
        match *op {
            W::Wait(g) => env.gate(g).await,
            W::Open(g) => env.open(g),
            W::Put(_) | W::Flood => loop {
                let at = t.borrow().wrote.len();
                let n = if let W::Put(n) = *op { n } else { 10 };
                let chunk: Vec<u8> = (at..at + n).map(|i| byte(seed, i)).collect();
                let mut done = 0;
                while done < n {
                    let r = std::future::poll_fn(|cx| match u.borrow_mut().as_mut() {
                        Some(u) => Pin::new(u).poll_write(cx, &chunk[done..]),
                        None => Poll::Ready(Err(std::io::ErrorKind::NotConnected.into())),
                    })
                    .await;
                    match r {
                        Ok(0) => {
                            t.borrow_mut().werr = Some("wrote 0 bytes".into());
                            return;
                        }
                        Ok(k) => {
                            env.ch.log(|| format!("  tunnel accepts {k} bytes"));
                            let mut t = t.borrow_mut();
                            t.wrote.extend(&chunk[done..done + k]);
                            t.chunks.push(k);
                            done += k;
                        }
                        Err(e) => {
                            env.ch.log(|| format!("  tunnel write fails: {e}"));
                            t.borrow_mut().werr = Some(e.to_string());
                            return;
                        }
                    }
                }
                if matches!(op, W::Put(_)) {
                    break;
                }
            },
            W::Flush | W::Shut => {
                let r = std::future::poll_fn(|cx| match u.borrow_mut().as_mut() {
                    Some(u) if *op == W::Flush => Pin::new(u).poll_flush(cx),
                    Some(u) => Pin::new(u).poll_shutdown(cx),
                    None => Poll::Ready(Err(std::io::ErrorKind::NotConnected.into())),
                })
                .await;
                env.ch.log(|| format!("  tunnel {op:?}: {r:?}"));
                if *op == W::Shut {
                    t.borrow_mut().shut = Some(r.is_ok());
                } else {
                    t.borrow_mut().flushed += 1;
                }
                if let Err(e) = r {
                    t.borrow_mut().werr = Some(e.to_string());
                    return;
                }
            }
        }
    }
}
async fn reader(env: &E, s: &Side, t: &T, u: &Rc<RefCell<Option<Upgraded>>>) {
    let (size, limit) = match s.r {
        R::All(n) => (n, usize::MAX),
        R::Late(g, n) => {
            env.gate(g).await;
            (n, usize::MAX)
        }
        R::Some(n) => (n, n),
        R::Never => return,
    };
    let mut mem = vec![0u8; size];
    loop {
        let have = t.borrow().read.len();
        if have >= limit {
            return;
        }
        let want = size.min(limit - have);
        env.op();
        let r = std::future::poll_fn(|cx| {
            let mut rb = ReadBuf::new(&mut mem[..want]);
            match u.borrow_mut().as_mut() {
                Some(u) => Pin::new(u).poll_read(cx, rb.unfilled()).map(|r| r.map(|()| rb.filled().to_vec())),
                None => Poll::Ready(Err(std::io::ErrorKind::NotConnected.into())),
            }
        })
        .await;
        match r {
            Ok(v) if v.is_empty() => {
                env.ch.log(|| "  tunnel reads its end".to_string());
                t.borrow_mut().rend = Some(Ok(()));
                return;
            }
            Ok(v) => {
                env.ch.log(|| format!("  tunnel reads {} bytes", v.len()));
                t.borrow_mut().read.extend(v);
            }
            Err(e) if e.kind() == std::io::ErrorKind::NotConnected => return,
            Err(e) => {
                env.ch.log(|| format!("  tunnel read fails: {e}"));
                let mut t = t.borrow_mut();
                t.rkind = Some(e.kind());
                t.rend = Some(Err(e.to_string()));
                return;
            }
        }
    }
}
fn connect(ext: bool) -> Call {
    let mut c = Call { method: "CONNECT", ..req(0, BodySpec::empty()) };
    if ext {
        c.protocol = Some("websocket");
    } else {
        c.uri = "h:80".into();
    }
    c.take = Take::Drop;
    c.upgrade()
}
fn accept() -> Beh {
    let mut be = resp(0, BodySpec::empty()).consume(Consume::Ignore);
    be.upgrade = true;
    be
}
fn control() -> (Call, Beh) {
    (req(1, b(vec![d("con"), BStep::Pending, d("trol")], Hint::Unknown, false)), resp(1, b(vec![d("un"), BStep::Pending, d("dis"), d("turbed")], Hint::Unknown, false)))
}
fn control_ok(h: &H2, i: usize, when: &str) -> Result<(), Viol> {
    let (c, be) = control();
    let q = h.calls.borrow();
    let g = q[i].got.borrow();
    if q[i].outcome != Outcome::Resp || g.end != End::Clean || g.data != be.resp.body.data() {
        return viol(format!("an exchange {when} the tunnel was disturbed"), h.summary());
    }
    let reqs = h.reqs.borrow();
    if !reqs.iter().any(|r| r.uri == c.uri && r.got.borrow().end == End::Clean && r.got.borrow().data == c.body.data()) {
        return viol(format!("a request {when} the tunnel was disturbed"), h.summary());
    }
    Ok(())
}
fn show(h: &H2, t: &[(&str, &T)]) -> String {
    let mut s = String::new();
    for (n, t) in t {
        let t = t.borrow();
        s.push_str(&format!(
            "{n}: up={:?} wrote {} bytes in {} chunks, werr={:?} shut={:?} flushed={} wdone={} read {} bytes rend={:?} rdone={} dropped={}\n",
            t.up,
            t.wrote.len(),
            t.chunks.len(),
            t.werr,
            t.shut,
            t.flushed,
            t.wdone,
            t.read.len(),
            t.rend,
            t.rdone,
            t.dropped
        ));
    }
    format!("{s}{}", h.summary())
}
fn quit(h: &mut H2, ts: &[(&str, &T)]) -> Result<(), Viol> {
    h.drop_sender();
    h.w.run();
    h.sync();
    h.contract()?;
    let (c, s) = (h.cres.borrow().clone(), h.sres.borrow().clone());
    let all = ts.iter().all(|t| t.1.borrow().dropped || t.1.borrow().up != Some(Ok(())));
    if all && (c != Some(Ok(())) || s != Some(Ok(()))) {
        return viol(digits(&format!("the connection does not end: client {c:?} server {s:?}")).chars().take(150).collect::<String>(), show(h, ts));
    }
    let left: Vec<String> = h.w.unfinished().into_iter().filter(|n| n.starts_with("c-") || n.starts_with("s-")).collect();
    if all && !left.is_empty() {
        return viol(format!("left running: {}", left.join(",")), show(h, ts));
    }
    Ok(())
}

#[derive(Clone)]
struct P {
    c: Side,
    s: Side,
    cw: Win,
    sw: Win,
    ext: bool,
    control: bool,
    pol: IoPolicy,
}
/// Does everything this side's reader wants arrive?
fn reads_on(s: &Side) -> bool {
    matches!(s.r, R::All(_) | R::Late(..)) && !matches!(s.fin, Fin::Writes | Fin::AtOnce)
}
fn pair(ch: &Ch, p: &P) -> ExecResult {
    let (mut c1, b1) = control();
    c1.after = 0;
    let ext = p.ext;
    let sw = crate::c18::swin(p.sw);
    let mut h = H2::new(ch, p.pol);
    h.cio.join(&h.sio);
    let (tc, ts): (T, T) = Default::default();
    h.on_up_c = Some(tunnel(&h.env, &p.c, &tc, 0, "ct"));
    h.client(cwin(p.cw));
    let mut cfg = SrvCfg::new(vec![accept(), b1.clone(), accept()]);
    cfg.by_path = true;
    cfg.on_up = Some(tunnel(&h.env, &p.s, &ts, 0x55, "st"));
    h.server(
        st(move |b, e| {
            sw(b, e);
            if ext {
                b.enable_connect_protocol();
            }
        }),
        cfg,
    );
    h.w.run();
    h.caller(connect(p.ext));
    let during = p.control.then(|| h.caller(c1.clone()));
    h.w.run();
    h.sync();
    h.contract()?;
    let all = [("client", &tc), ("server", &ts)];
    if h.outcome(0) != Outcome::Resp || tc.borrow().up != Some(Ok(())) || ts.borrow().up != Some(Ok(())) {
        return viol("an accepted CONNECT makes no tunnel", show(&h, &all));
    }
    if p.ext && h.reqs.borrow().iter().all(|r| r.protocol.as_deref() != Some("websocket")) {
        return viol("the protocol of an extended CONNECT was lost", show(&h, &all));
    }
    if let Some(i) = during {
        control_ok(&h, i, "next to")?;
    }
    for (n, a, sa, b, sb) in [("client to server", &tc, &p.c, &ts, &p.s), ("server to client", &ts, &p.s, &tc, &p.c)] {
        let (a, b) = (a.borrow(), b.borrow());
        if !a.wrote.starts_with(&b.read) {
            return viol(format!("{n}: the bytes read are not those written"), show(&h, &all));
        }
        // who drops everything takes the other's writes down with it
        // (an end that is dropped with unread bytes resets the tunnel, as closing a socket would)
        let cut = a.dropped && a.rend.is_none() && sb.w.iter().any(|w| matches!(w, W::Put(_)));
        let reads = reads_on(sb);
        if reads {
            match &b.rend {
                Some(Ok(())) => {
                    if b.read != a.wrote && !cut {
                        return viol(format!("{n}: end of stream before the last byte"), show(&h, &all));
                    }
                    if !(a.shut.is_some() || a.dropped) {
                        return viol(format!("{n}: end of stream although the direction is open"), show(&h, &all));
                    }
                }
                Some(Err(_)) => return viol(format!("{n}: reading fails although nothing was reset"), show(&h, &all)),
                None => {
                    if a.shut.is_some() || a.dropped {
                        return viol(format!("{n}: the end of stream does not arrive"), show(&h, &all));
                    }
                    if b.read != a.wrote {
                        return viol(format!("{n}: bytes do not arrive"), show(&h, &all));
                    }
                }
            }
            if !a.wdone {
                return viol(format!("{n}: a writer is stuck although the other end reads"), show(&h, &all));
            }
            if let Some(e) = &a.werr {
                return viol(format!("{n}: writing fails although the other end reads: {e}"), show(&h, &all));
            }
            if a.shut == Some(false) {
                return viol(format!("{n}: shutdown fails although the other end reads"), show(&h, &all));
            }
        } else {
            if !a.wdone && b.dropped && (reads_on(sa) || b.wrote.is_empty()) {
                return viol(format!("{n}: a writer is stuck although the other end is gone"), show(&h, &all));
            }
            if let R::Some(k) = sb.r {
                if sb.fin != Fin::Writes && !cut && b.read.len() < k.min(a.wrote.len()) {
                    return viol(format!("{n}: bytes do not arrive"), show(&h, &all));
                }
            }
            if sb.fin == Fin::Hold && a.werr.is_some() {
                return viol(format!("{n}: writing fails although the other end is open"), show(&h, &all));
            }
        }
    }
    let i = h.caller(c1);
    h.w.run();
    h.sync();
    control_ok(&h, i, "after")?;
    quit(&mut h, &all)?;
    let f = mix(tc.borrow().chunks.len() as u64, ts.borrow().read.len() as u64);
    Ok(mix(h.fp(), f))
}

// ---------------------------------------------------------------- raw peers

#[derive(Clone, Copy, Debug, PartialEq)]
enum P2 {
    Data(usize),
    Empty,
    /// DATA with END_STREAM
    End(usize),
    Trailers,
    Rst(u32),
    /// grant more of the stream's window
    Window(u32),
    /// wait until this many bytes came
    Got(usize),
    Goaway,
    Eof,
    /// let everything settle
    Open(u32),
    Wait(u32),
}
#[derive(Clone, Debug)]
struct Raw {
    s: Side,
    peer: Vec<P2>,
    /// the peer's initial window
    window: Option<u32>,
    /// hyper's own window
    own: Option<u32>,
    pol: IoPolicy,
}
struct RawEnd {
    sent: usize,
    played: usize,
}
async fn play(p: &Peer, id: u32, ops: &[P2], seed: u8, out: &Rc<RefCell<RawEnd>>) {
    for op in ops {
        let at = out.borrow().sent;
        let bytes = |n: usize| (at..at + n).map(|i| byte(seed, i)).collect::<Vec<u8>>();
        match *op {
            P2::Data(n) => {
                out.borrow_mut().sent += n;
                p.send(&r2::data(id, &bytes(n), false))
            }
            P2::Empty => p.send(&r2::data(id, b"", false)),
            P2::End(n) => {
                out.borrow_mut().sent += n;
                p.send(&r2::data(id, &bytes(n), true))
            }
            P2::Trailers => p.send(&r2::headers(id, &[("x-t", "1")], true)),
            P2::Rst(c) => p.send(&r2::rst(id, c)),
            P2::Window(n) => p.send(&r2::window(id, n)),
            P2::Got(n) => p.until(move |r| r.get(id).data.len() >= n || r.get(id).end || r.get(id).rst.is_some()).await,
            P2::Goaway => p.send(&r2::goaway(id, 0)),
            P2::Eof => p.eof(),
            P2::Open(g) => p.env.open(g),
            P2::Wait(g) => p.env.gate(g).await,
        }
        out.borrow_mut().played += 1;
    }
}
fn judge_raw(h: &H2, t: &T, y: &Raw, hs: &r2::Str, seed: u8) -> Result<(), Viol> {
    let all = [("side", t)];
    let sh = || format!("{:?}\n{}", y, show(h, &all));
    let tt = t.borrow();
    if tt.up != Some(Ok(())) {
        return viol("an accepted CONNECT makes no tunnel", sh());
    }
    let sent: usize = y.peer.iter().map(|o| if let P2::Data(n) | P2::End(n) = o { *n } else { 0 }).sum();
    let want: Vec<u8> = (0..sent).map(|i| byte(seed, i)).collect();
    if !want.starts_with(&tt.read) {
        return viol("the bytes read are not those sent", sh());
    }
    let rst = y.peer.iter().find_map(|o| if let P2::Rst(c) = o { Some(*c) } else { None });
    let ended = y.peer.iter().any(|o| matches!(o, P2::End(_) | P2::Trailers));
    let eof = y.peer.contains(&P2::Eof);
    let reads = reads_on(&y.s);
    if reads {
        let soft = matches!(rst, Some(r2::NO_ERROR) | Some(r2::CANCEL));
        match (&tt.rend, ended, rst.is_some() || eof) {
            // what was ended, ends; a reset after that may still hide it
            (Some(Ok(())), true, _) if tt.read == want => {}
            (Some(Ok(())), true, _) => return viol("end of stream before the last byte", sh()),
            (Some(Ok(())), false, true) if soft && !eof => {}
            (Some(Ok(())), false, true) => return viol("a cut-off tunnel reads as ended", sh()),
            (Some(Ok(())), false, false) => return viol("end of stream although the direction is open", sh()),
            (Some(Err(_)), _, true) => {}
            (Some(Err(_)), _, false) => return viol("reading fails although nothing was reset", sh()),
            (None, true, _) => return viol("the end of stream does not arrive", sh()),
            (None, _, true) => return viol("a reader hangs although the tunnel is cut off", sh()),
            (None, false, false) => {
                if tt.read != want {
                    return viol("bytes do not arrive", sh());
                }
            }
        }
        if rst == Some(5) && !ended && tt.rkind != Some(std::io::ErrorKind::BrokenPipe) {
            return viol("reading a stream that was closed is not a broken pipe", sh());
        }
    }
    // what the peer got
    if !tt.wrote.starts_with(&hs.data) {
        return viol("the bytes sent are not those written", sh());
    }
    let window = y.window.unwrap_or(65535) as usize + y.peer.iter().map(|o| if let P2::Window(n) = o { *n as usize } else { 0 }).sum::<usize>();
    if hs.flow > window {
        return viol("more was sent than the window admits", sh());
    }
    let cut = rst.is_some() || eof;
    let own_cut = tt.dropped && tt.rend.is_none() && sent > tt.read.len();
    if own_cut {
        if !cut && hs.rst.is_none() && !hs.end && window >= tt.wrote.len() {
            return viol("a dropped tunnel is neither ended nor reset", sh());
        }
    } else if !cut {
        if hs.data.len() < tt.wrote.len().min(window) {
            return viol("accepted bytes are not sent although the window admits them", sh());
        }
        if hs.end && hs.data != tt.wrote {
            return viol("the stream was ended before the last byte", sh());
        }
        if hs.end && !(tt.shut.is_some() || tt.dropped || tt.wdone && y.s.w.contains(&W::Shut)) {
            // a shutdown in progress has not finished yet
            if !y.s.w.contains(&W::Shut) {
                return viol("the stream was ended although nobody shut it down", sh());
            }
        }
        if (tt.shut.is_some() || tt.dropped) && window >= tt.wrote.len() && !hs.end {
            return viol("a shutdown is not sent", sh());
        }
        let late = y.s.w.iter().position(|o| *o == W::Shut).is_some_and(|at| y.s.w[at..].iter().any(|o| matches!(o, W::Put(_))));
        if tt.shut == Some(false) || tt.werr.is_some() && !(late && tt.shut.is_some()) {
            return viol("writing fails although the peer is open", sh());
        }
        if window >= tt.wrote.len() + 100 && !tt.wdone {
            return viol("a writer is stuck although the window has room", sh());
        }
        // what goes before it is admitted: a shutdown goes out, window or not
        let all: usize = y.s.w.iter().map(|o| if let W::Put(n) = o { *n } else { 0 }).sum();
        if y.s.w.contains(&W::Shut) && !tt.wdone && window >= all && !y.s.w.iter().any(|o| matches!(o, W::Wait(_))) {
            return viol("a shutdown is stuck although the window admits all that was written", sh());
        }
    } else if !tt.wdone && !y.s.w.iter().any(|w| matches!(w, W::Wait(_))) {
        return viol("a writer is stuck although the tunnel is cut off", sh());
    }
    if rst.is_some() && tt.shut == Some(true) {
        let before = tt.wrote.len() - tt.chunks.last().copied().unwrap_or(0);
        // at least the last chunk never left the queue
        if !tt.wrote.is_empty() && before >= window {
            return viol("a shutdown succeeds although the tunnel was reset before all was sent", sh());
        }
    }
    if let Some(at) = y.s.w.iter().position(|o| *o == W::Shut) {
        let more = y.s.w[at..].iter().any(|o| matches!(o, W::Put(_)));
        let all: usize = y.s.w[..at].iter().map(|o| if let W::Put(n) = o { *n } else { 0 }).sum();
        if more && tt.wrote.len() > all {
            return viol("a write after the shutdown is accepted", sh());
        }
        if more && tt.wdone && tt.werr.is_none() {
            return viol("a write after the shutdown does not fail", sh());
        }
    }
    if cut && y.s.w.contains(&W::Flood) && tt.werr.is_none() {
        return viol("writing into a tunnel that was cut off does not fail", sh());
    }
    // back-pressure: what is accepted beyond the window is a few chunks
    let mut room = window;
    let mut over = 0;
    for c in &tt.chunks {
        if *c <= room {
            room -= c;
        } else {
            room = 0;
            over += 1;
        }
    }
    if over > 4 {
        return viol("a tunnel accepts writes without bound although the peer makes no room", sh());
    }
    Ok(())
}
fn raw_server(ch: &Ch, y: &Raw) -> ExecResult {
    let mut h = H2::new(ch, y.pol);
    let t: T = Default::default();
    h.on_up_c = Some(tunnel(&h.env, &y.s, &t, 0, "ct"));
    h.client(cwin(Win { stream: y.own, ..Win::default() }));
    let p = h.raw_server();
    h.auto(&p, 9);
    p.send(&r2::settings(&y.window.map(|w| vec![(4, w)]).unwrap_or_default()));
    h.w.run();
    h.caller(connect(false));
    let out = Rc::new(RefCell::new(RawEnd { sent: 0, played: 0 }));
    let (p2, y2, o2) = (p.clone(), y.clone(), out.clone());
    h.w.add("peer", async move {
        p2.until(|r| !r.get(1).heads.is_empty()).await;
        p2.send(&r2::ok(1, &[], false));
        play(&p2, 1, &y2.peer, 0x55, &o2).await;
    });
    h.w.run();
    h.sync_client();
    h.contract()?;
    let cs = h.cw.borrow().get(1);
    let y = &Raw { peer: y.peer[..out.borrow().played].to_vec(), ..y.clone() };
    judge_raw(&h, &t, y, &cs, 0x55)?;
    // the connection still works
    let away = y.peer.contains(&P2::Goaway) || y.peer.contains(&P2::Eof);
    if !away {
        let i = h.caller(req(1, BodySpec::empty()));
        let p2 = p.clone();
        h.w.add("peer-next", async move {
            p2.until(|r| r.get(3).end).await;
            let mut x = r2::ok(3, &[], false);
            x.extend(r2::data(3, b"fine", true));
            p2.send(&x);
        });
        h.w.run();
        h.sync_client();
        let q = h.calls.borrow();
        if q[i].outcome != Outcome::Resp || q[i].got.borrow().data != b"fine" || q[i].got.borrow().end != End::Clean {
            return viol("an exchange after the tunnel was disturbed", show(&h, &[("side", &t)]));
        }
    }
    let over = t.borrow().dropped && (y.peer.iter().any(|o| matches!(o, P2::End(_) | P2::Trailers | P2::Rst(_) | P2::Eof)) || cs.rst.is_some());
    h.drop_sender();
    h.w.run();
    h.sync_client();
    h.contract()?;
    if over && cs.end {
        let left: Vec<String> = h.w.unfinished().into_iter().filter(|n| n.starts_with("c-")).collect();
        if !left.is_empty() || !h.cio.s.borrow().dropped {
            return viol(format!("left running: {}", left.join(",")), show(&h, &[("side", &t)]));
        }
    }
    let f = mix(t.borrow().chunks.len() as u64, t.borrow().read.len() as u64);
    Ok(mix(h.fp(), f))
}
fn raw_client(ch: &Ch, y: &Raw) -> ExecResult {
    let mut h = H2::new(ch, y.pol);
    let t: T = Default::default();
    let mut cfg = SrvCfg::new(vec![accept(), resp(1, BodySpec::full(b"fine")), accept()]);
    cfg.by_path = true;
    cfg.on_up = Some(tunnel(&h.env, &y.s, &t, 0x55, "st"));
    h.server(crate::c18::swin(Win { stream: y.own, ..Win::default() }), cfg);
    let p = h.raw_client();
    h.auto(&p, 9);
    let out = Rc::new(RefCell::new(RawEnd { sent: 0, played: 0 }));
    let mut x = r2::PREFACE.to_vec();
    x.extend(r2::settings(&y.window.map(|w| vec![(4, w)]).unwrap_or_default()));
    x.extend(r2::headers(1, &[(":method", "CONNECT"), (":authority", "h:80")], false));
    p.send(&x);
    let (p2, y2, o2) = (p.clone(), y.clone(), out.clone());
    h.w.add("peer", async move {
        p2.until(|r| !r.get(1).heads.is_empty()).await;
        play(&p2, 1, &y2.peer, 0, &o2).await;
    });
    h.w.run();
    h.sync_server();
    h.contract()?;
    let ss = h.sw.borrow().get(1);
    if ss.status() != 200 {
        return viol("an accepted CONNECT makes no tunnel", h.summary());
    }
    let y = &Raw { peer: y.peer[..out.borrow().played].to_vec(), ..y.clone() };
    judge_raw(&h, &t, y, &ss, 0)?;
    let away = y.peer.contains(&P2::Goaway) || y.peer.contains(&P2::Eof);
    if !away {
        let mut x = r2::get(3, "/p/1", true);
        x.extend(r2::window(3, 100));
        p.send(&x);
        h.w.run();
        h.sync_server();
        let s3 = h.sw.borrow().get(3);
        if s3.status() != 200 || s3.data != b"fine" || !s3.end {
            return viol("an exchange after the tunnel was disturbed", show(&h, &[("side", &t)]));
        }
    }
    if !y.peer.contains(&P2::Eof) {
        p.eof();
        h.w.run();
        h.sync_server();
        h.contract()?;
    }
    // the transport is gone: so is everything on it
    let left: Vec<String> = h.w.unfinished().into_iter().filter(|n| n.starts_with("s-")).collect();
    if !left.is_empty() {
        return viol(format!("left running although the transport is gone: {}", left.join(",")), show(&h, &[("side", &t)]));
    }
    let f = mix(t.borrow().chunks.len() as u64, t.borrow().read.len() as u64);
    Ok(mix(h.fp(), f))
}

// ---------------------------------------------------------------- accepting and refusing

/// hyper's client, and an answer to CONNECT of any kind.
fn tun_id(r: &r2::Reader) -> Option<u32> {
    r.streams.iter().find(|(_, s)| s.field(0, ":method").as_deref() == Some(b"CONNECT")).map(|x| *x.0)
}
fn answer(ch: &Ch, status: &'static str, cl: Option<&'static str>, end: bool, interim: bool) -> ExecResult {
    let mut h = H2::new(ch, IO_FEW);
    let t: T = Default::default();
    h.on_up_c = Some(tunnel(&h.env, &side(&[W::Put(3), W::Flush, W::Shut], R::All(4), Fin::Both), &t, 0, "ct"));
    h.client(cwin(Win::default()));
    let p = h.raw_server();
    h.auto(&p, 9);
    p.send(&r2::settings(&[]));
    h.w.run();
    let mut c = connect(false);
    c.take = Take::Full;
    h.caller(c);
    let i = h.caller(req(1, BodySpec::empty()));
    let p2 = p.clone();
    let ok = status.starts_with('2');
    let body: &[u8] = if end { b"" } else { b"hello" };
    h.w.add("peer", async move {
        p2.until(|r| tun_id(r).is_some()).await;
        let id = tun_id(&p2.rd.borrow()).unwrap();
        if interim {
            p2.send(&r2::headers(id, &[(":status", "103")], false));
        }
        let mut f = vec![(":status", status)];
        if let Some(c) = cl {
            f.push(("content-length", c));
        }
        p2.send(&r2::headers(id, &f, end));
        if !end {
            p2.send(&r2::data(id, body, true));
        }
    });
    let p3 = p.clone();
    h.w.add("peer-next", async move {
        let at = |r: &r2::Reader| crate::c19::sid(r, "http://h/p/1");
        p3.until(move |r| at(r).map_or(false, |id| r.get(id).end)).await;
        let id = at(&p3.rd.borrow()).unwrap();
        let mut x = r2::ok(id, &[], false);
        x.extend(r2::data(id, b"fine", true));
        p3.send(&x);
    });
    h.w.run();
    h.sync_client();
    h.contract()?;
    let sh = || show(&h, &[("side", &t)]);
    {
        let q = h.calls.borrow();
        if q[i].outcome != Outcome::Resp || q[i].got.borrow().data != b"fine" {
            return viol("an exchange next to a CONNECT was disturbed", sh());
        }
        if q[0].outcome == Outcome::Pending {
            return viol("an answered CONNECT never completes", sh());
        }
        let t = t.borrow();
        let odd = cl.is_some() && ok;
        if !odd {
            if q[0].outcome != Outcome::Resp {
                return viol("an answered CONNECT fails", sh());
            }
            if ok {
                if t.up != Some(Ok(())) {
                    return viol("an accepted CONNECT makes no tunnel", sh());
                }
                let st = h.cw.borrow().get(tun_id(&h.cw.borrow()).unwrap_or(0));
                if t.read != body || t.rend != Some(Ok(())) || t.werr.is_some() || st.data != t.wrote || !st.end {
                    return viol("the tunnel of an accepted CONNECT does not carry", sh());
                }
            } else {
                if !matches!(t.up, Some(Err(_))) {
                    return viol("a refused CONNECT leaves its upgrade unresolved", sh());
                }
                if q[0].got.borrow().data != body || q[0].got.borrow().end != End::Clean {
                    return viol("the body of a refused CONNECT is not delivered", sh());
                }
            }
        }
    }
    h.drop_sender();
    h.w.run();
    h.sync_client();
    h.contract()?;
    let left: Vec<String> = h.w.unfinished().into_iter().filter(|n| n.starts_with("c-")).collect();
    if !left.is_empty() {
        return viol(format!("left running: {}", left.join(",")), show(&h, &[("side", &t)]));
    }
    Ok(h.fp())
}
/// hyper's server: a CONNECT with any content-length, accepted or refused by the service.
fn refuse(ch: &Ch, status: u16, resp_cl: Option<&'static str>, req_cl: Option<&'static str>, ends: bool, body: bool) -> ExecResult {
    let mut h = H2::new(ch, IO_FEW);
    let t: T = Default::default();
    let mut be = accept();
    be.resp.status = status;
    if let Some(c) = resp_cl {
        be.resp.headers.push(("content-length", c.as_bytes()));
    }
    if body {
        be.resp.body = BodySpec::full(b"hello");
    }
    let mut cfg = SrvCfg::new(vec![be.clone(), resp(1, BodySpec::full(b"fine")), be]);
    cfg.by_path = true;
    cfg.on_up = Some(tunnel(&h.env, &side(&[W::Put(3), W::Flush, W::Shut], R::All(4), Fin::Both), &t, 0x55, "st"));
    h.server(crate::c18::swin(Win::default()), cfg);
    let p = h.raw_client();
    h.auto(&p, 9);
    let mut x = r2::PREFACE.to_vec();
    x.extend(r2::settings(&[]));
    let mut f = vec![(":method", "CONNECT"), (":authority", "h:80")];
    if let Some(c) = req_cl {
        f.push(("content-length", c));
    }
    x.extend(r2::headers(1, &f, ends));
    p.send(&x);
    x = r2::get(3, "/p/1", true);
    p.send(&x);
    let p2 = p.clone();
    let zero = matches!(req_cl, None | Some("0"));
    if !ends {
        h.w.add("peer", async move {
            p2.until(|r| !r.get(1).heads.is_empty() || r.get(1).rst.is_some()).await;
            if p2.rd.borrow().get(1).rst.is_none() && zero {
                p2.send(&r2::data(1, b"", true));
            }
        });
    }
    h.w.run();
    p.send(&r2::get(5, "/p/1", true));
    h.w.run();
    h.sync_server();
    h.contract()?;
    let sh = || show(&h, &[("side", &t)]);
    for id in [3, 5] {
        let s = h.sw.borrow().get(id);
        if s.status() != 200 || s.data != b"fine" || !s.end {
            return viol("an exchange next to a CONNECT was disturbed", sh());
        }
    }
    let s1 = h.sw.borrow().get(1);
    if !zero {
        if s1.rst.is_none() {
            return viol("a CONNECT with a length is neither served nor reset", sh());
        }
    } else if (200..300).contains(&status) {
        if matches!(resp_cl, None | Some("0")) {
            if s1.status() != status || s1.field(0, "content-length").is_some() || t.borrow().up != Some(Ok(())) {
                return viol("an accepted CONNECT makes no tunnel", sh());
            }
            if s1.data != t.borrow().wrote || t.borrow().wrote.len() != 3 || !s1.end || t.borrow().rend != Some(Ok(())) {
                return viol("the tunnel of an accepted CONNECT does not carry", sh());
            }
        } else if s1.rst.is_none() {
            return viol("an accepted CONNECT with a length is neither served nor reset", sh());
        }
    } else {
        if s1.status() != status || !s1.end || s1.data != if body { &b"hello"[..] } else { b"" } {
            return viol("the answer that refuses a CONNECT is not delivered", sh());
        }
        if !matches!(t.borrow().up, Some(Err(_))) {
            return viol("a refused CONNECT leaves its upgrade unresolved", sh());
        }
    }
    p.eof();
    h.w.run();
    h.sync_server();
    h.contract()?;
    let left: Vec<String> = h.w.unfinished().into_iter().filter(|n| n.starts_with("s-")).collect();
    if !left.is_empty() {
        return viol(format!("left running: {}", left.join(",")), show(&h, &[("side", &t)]));
    }
    Ok(h.fp())
}

pub fn check(t: Tier) -> Check {
    let mut sc = vec![];
    let bound = t.pick(1, 2);
    use W::*;
    // sides
    let ws: Vec<(&str, Vec<W>)> = vec![
        ("one", vec![Put(3), Shut]),
        ("chunks", vec![Put(1), Put(4), Flush, Put(2), Shut]),
        ("big", vec![Put(30), Put(30), Shut]),
        ("only-shut", vec![Shut]),
        ("flush-shut", vec![Flush, Put(5), Flush, Shut, Shut]),
        ("no-shut", vec![Put(7), Flush]),
        ("after-gate", vec![Wait(31), Put(9), Shut]),
        ("none", vec![]),
    ];
    let tails: Vec<(&str, R, Fin)> = vec![
        ("read", R::All(16), Fin::Both),
        ("read-1", R::All(1), Fin::Both),
        ("read-hold", R::All(5), Fin::Hold),
        ("late", R::Late(31, 8), Fin::Both),
        ("write-drop", R::Never, Fin::Writes),
        ("some-drop", R::Some(2), Fin::Both),
        ("never-hold", R::Never, Fin::Hold),
        ("read-write-drop", R::All(4), Fin::Writes),
    ];
    let tiny = Win { stream: Some(5), ..Win::default() };
    let wins: Vec<(&str, Win)> = vec![("", Win::default()), ("/tiny", tiny)];
    for (wn, win) in &wins {
        for (cn, cw) in &ws {
            for (sn, sw) in &ws {
                for (ctn, cr, cf) in &tails {
                    for (stn, sr, sf) in &tails {
                        // who waits for the gate needs the other to open it
                        let waits = |w: &Vec<W>, r: &R| w.contains(&Wait(31)) || matches!(r, R::Late(..));
                        let (mut c, mut s) = (side(cw, *cr, *cf), side(sw, *sr, *sf));
                        if waits(cw, cr) && cw.contains(&Wait(31)) && waits(sw, sr) && sw.contains(&Wait(31)) {
                            continue;
                        }
                        // the one that does not wait opens it at its end
                        let mut opened = false;
                        if waits(cw, cr) && !sw.contains(&Wait(31)) {
                            // before a shutdown that may wait for the reader
                            let at = s.w.iter().position(|w| *w == Shut).unwrap_or(s.w.len());
                            s.w.insert(if matches!(cr, R::Late(..)) { 1.min(at) } else { at }, Open(31));
                            opened = true;
                        }
                        if waits(sw, sr) && !opened && !cw.contains(&Wait(31)) {
                            let at = c.w.iter().position(|w| *w == Shut).unwrap_or(c.w.len());
                            c.w.insert(if matches!(sr, R::Late(..)) { 1.min(at) } else { at }, Open(31));
                            opened = true;
                        }
                        if (waits(cw, cr) || waits(sw, sr)) && !opened {
                            continue;
                        }
                        // keep the product within reason: the middle of the table against everything
                        let core = |a: &str, b: &str| matches!(a, "chunks" | "big") && matches!(b, "read" | "late" | "write-drop");
                        if !core(cn, ctn) && !core(sn, stn) {
                            continue;
                        }
                        if t == Tier::Quick && !wn.is_empty() && (*cn == "one" || *sn == "one") {
                            continue;
                        }
                        for ext in [false, true] {
                            if ext && (*cn != "chunks" || !wn.is_empty()) {
                                continue;
                            }
                            let p = P { c: c.clone(), s: s.clone(), cw: *win, sw: *win, ext, control: *cn == "big" || *sn == "chunks", pol: IO_FEW };
                            // beyond the first, schedules of the plainest ones only
                            let b = if core(cn, ctn) && core(sn, stn) { bound } else { bound - 1 };
                            sc.push(scenario(format!("pair{wn}/{cn}-{ctn}/{sn}-{stn}{}", if ext { "/extended" } else { "" }), b, move |ch| pair(ch, &p)));
                        }
                    }
                }
            }
        }
    }
    // writes that fill whole frames and windows
    for n in [257usize, 1025, 17_000, 70_000] {
        for vectored in [false, true] {
            for (rn, r) in [("", R::All(n)), ("/small-reads", R::All(1000))] {
                for (who, both) in [("client", false), ("server", false), ("both", true)] {
                    let data = || side(&[Put(n), Put(3), Put(n), Shut], r, Fin::Both);
                    let p = P {
                        c: if who != "server" { data() } else { side(&[Shut], r, Fin::Both) },
                        s: if who != "client" { data() } else { side(&[Shut], r, Fin::Both) },
                        cw: Win::default(),
                        sw: Win::default(),
                        ext: false,
                        control: both,
                        pol: IoPolicy { vectored, ..IO_FEW },
                    };
                    sc.push(scenario(format!("pair/large-{n}/{who}{}{rn}", if vectored { "/vectored" } else { "" }), if n > 10_000 { bound - 1 } else { bound }, move |ch| pair(ch, &p)));
                }
            }
        }
    }
    // raw peers
    use P2::{Data, Empty, End, Eof, Goaway, Got, Rst, Trailers};
    let mut peers: Vec<(String, Vec<P2>)> = vec![
        ("end".into(), vec![Data(4), End(3)]),
        ("empty".into(), vec![Empty, Data(2), Empty, Empty, Data(2), Empty, End(0)]),
        ("trailers".into(), vec![Data(4), Trailers]),
        ("end-first".into(), vec![End(0)]),
        ("open".into(), vec![Data(4), Data(4)]),
        ("goaway".into(), vec![Data(4), Goaway, Data(3), End(2)]),
        ("eof".into(), vec![Data(4), Eof]),
        ("end-eof".into(), vec![Data(4), End(1), P2::Wait(41), Eof]),
        ("reply".into(), vec![Got(3), Data(4), End(0)]),
        ("grants".into(), vec![Got(3), P2::Window(2), Got(5), P2::Window(100), End(2)]),
        ("shrug".into(), vec![P2::Window(200), End(1)]),
        ("quiet".into(), vec![]),
        ("slow".into(), vec![Got(3), P2::Window(4), Got(7), P2::Window(2), P2::Window(100)]),
        ("slow-end".into(), vec![Got(3), P2::Window(4), Got(7), P2::Window(100), Got(12), End(0)]),
    ];
    for code in 0..14u32 {
        peers.push((format!("rst-{code}"), vec![Data(4), Rst(code)]));
        if matches!(code, 0 | 1 | 5 | 8 | 10) {
            peers.push((format!("rst-at-once-{code}"), vec![Rst(code)]));
            peers.push((format!("rst-after-{code}"), vec![Got(2), Data(2), Rst(code)]));
            peers.push((format!("end-rst-{code}"), vec![End(3), Got(2), P2::Wait(41), Rst(code)]));
        }
    }
    let sides: Vec<(&str, Side)> = vec![
        ("rw", side(&[Put(3), Flush, Put(6), Shut], R::All(4), Fin::Both)),
        ("r1", side(&[Put(3), Shut], R::All(1), Fin::Both)),
        ("flood", side(&[Flood], R::All(8), Fin::Hold)),
        ("flood-blind", side(&[Flood], R::Never, Fin::Hold)),
        ("hold", side(&[Put(3), Flush], R::All(4), Fin::Hold)),
        ("drop", side(&[Put(3), Put(4)], R::Never, Fin::Writes)),
        ("shut-drop", side(&[Put(3), Put(9), Flush, Shut], R::Never, Fin::Writes)),
        ("big-drop", side(&[Put(40)], R::Never, Fin::Writes)),
        ("at-once", side(&[], R::Never, Fin::AtOnce)),
        ("shut-first", side(&[Shut, W::Open(41)], R::All(4), Fin::Both)),
        ("shut-hold", side(&[Shut, Shut], R::Never, Fin::Hold)),
        ("late-write", side(&[Put(3), Shut, Flush, Put(2)], R::All(4), Fin::Both)),
        ("opens", side(&[Put(3), Flush, Shut, W::Open(41)], R::All(4), Fin::Both)),
    ];
    for (pn, ops) in &peers {
        for (sn, s) in &sides {
            for window in [None, Some(0), Some(3)] {
                for own in [None, Some(4)] {
                    if own.is_some() && !matches!(&**pn, "end" | "empty" | "reply" | "rst-8" | "open") {
                        continue;
                    }
                    // a raw peer keeps to hyper's window
                    if own.is_some() && ops.iter().map(|o| if let Data(n) | End(n) = o { *n } else { 0 }).sum::<usize>() > 4 && !reads_on(s) {
                        continue;
                    }
                    if own.is_some() && &**pn != "reply" && &**pn != "rst-8" && &**pn != "empty" {
                        continue;
                    }
                    if *sn == "flood" || *sn == "flood-blind" {
                        // writes for ever: only into a small window
                        if window.is_none() || ops.contains(&P2::Wait(41)) {
                            continue;
                        }
                    }
                    if ops.contains(&P2::Wait(41)) && !s.w.contains(&W::Open(41)) {
                        continue;
                    }
                    // a peer that waits for bytes gets them
                    let y = Raw { s: s.clone(), peer: ops.clone(), window, own, pol: IO_FEW };
                    let y2 = y.clone();
                    let n = format!("{pn}/{sn}{}{}", window.map_or(String::new(), |w| format!("/w{w}")), own.map_or(String::new(), |w| format!("/own{w}")));
                    let bound = if window == Some(0) || own.is_some() { 1 } else { bound };
                    sc.push(scenario(format!("server-peer/{n}"), bound, move |ch| raw_server(ch, &y)));
                    sc.push(scenario(format!("client-peer/{n}"), bound, move |ch| raw_client(ch, &y2)));
                }
            }
        }
    }
    for status in ["200", "201", "204", "206", "299", "300", "304", "403", "407", "502"] {
        for cl in [None, Some("0"), Some("5")] {
            for end in [true, false] {
                for interim in [false, true] {
                    // lengths that the body belies are another matter
                    if cl == Some("0") && !end || cl == Some("5") && end || cl.is_some() && interim || status == "304" && (!end || cl.is_some()) || status == "204" && cl.is_some() {
                        continue;
                    }
                    sc.push(scenario(format!("answer/{status}/{cl:?}{}{}", if end { "/end" } else { "" }, if interim { "/interim" } else { "" }), bound, move |ch| answer(ch, status, cl, end, interim)));
                }
            }
        }
    }
    for status in [200u16, 204, 299, 403, 502] {
        for resp_cl in [None, Some("0"), Some("5")] {
            for req_cl in [None, Some("0"), Some("4")] {
                for ends in [false, true] {
                    for body in [false, true] {
                        if body != (resp_cl == Some("5")) && status >= 300 || status < 300 && body {
                            continue;
                        }
                        if ends && req_cl == Some("4") {
                            continue;
                        }
                        sc.push(scenario(format!("refuse/{status}/{resp_cl:?}/{req_cl:?}{}", if ends { "/end" } else { "" }), bound, move |ch| refuse(ch, status, resp_cl, req_cl, ends, body)));
                    }
                }
            }
        }
    }
    Check {
        id: "C23",
        scenarios: sc,
        rule: "scripts of writes, flushes, shutdowns, reads (buffer sizes 1 to 16, early, late, partial, never) and drops on each end of a plain or extended CONNECT tunnel, default and tiny windows, both ends hyper or a raw peer that sends data, empty frames, END_STREAM, trailers, resets of every code, GOAWAY, window updates or closes; every kind of answer to CONNECT; every schedule within the deviation bound; other exchanges next to and after the tunnel".into(),
        assumptions: vec!["h2 0.4 as vendored".into(), "single-threaded interleaving at poll granularity".into()],
    }
}
